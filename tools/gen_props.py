#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json.
Run `python3 tools/gen_props.py` after editing; both outputs are committed."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, technique="", note="", na=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, qtext=" ".join(qtext.split()),
                  why=" ".join(why.split()), files=files, mech=mech, state=state, observe=observe,
                  technique=technique, note=" ".join(note.split()), na=na))

BFS = "explicit-state model checking of the real code (BFS over all operation sequences, canonical state hashing, reference model)"
ENUM = "bounded-exhaustive enumeration of all inputs on the real code against an independent reference model"
SCHED = "stateless model checking of the real code under a controlled scheduler (all interleavings)"
COMMON = """Direct exploration of the code built from /repo's working tree (gcc, AddressSanitizer, interposed allocator);
no abstraction between model and code. """

prop("C01", "Byte buffer behaves as a byte sequence",
 """After any sequence of appends, inserts, removals, clears, swaps, truncating or growing capacity changes and shrinks, a buffer's
 reported size and bytes are exactly those of the byte sequence obtained by applying the same operations to an ideal sequence (removals
 that reach past the end stop at the end; a capacity change below the size truncates). The raw insert/append variants return the address
 where exactly the requested number of new bytes goes, with all other bytes preserved in order, and inserting or appending zero bytes
 succeeds and changes nothing.""",
 ["inputs","histories"], "All operation sequences, offsets and lengths (including zero lengths, end offsets and removal lengths up to the maximum representable one), in every reachable combination of size and capacity.",
 "test-buffer.c runs a few fixed sequences with short strings; it never crosses the growth (256, 480, 992, 2016) and shrink thresholds from all size/capacity combinations and never uses lengths that overflow.",
 ["data/buffer.c","data/buffer.h"], [("growth policy","data/buffer.c:buffer_good_alloc_size"),("insert with gap opening","data/buffer.c:buffer_insert_raw"),("removal and shrinking","data/buffer.c:buffer_remove"),("capacity changes","data/buffer.c:buffer_realloc, buffer_shrink")],
 [("size/capacity pair","how many bytes are used and owned","data/buffer.h:BUFFER")],
 ["return codes, buffer_size(), buffer_is_empty(), bytes at buffer_data()"], BFS,
 "The (size, capacity) state space is closed under the operation alphabet up to the size bound, so every reachable growth/shrink transition below the bound is exercised with full content comparison. Assumes byte values do not influence control flow (bytes are position-coded and include zeros).")

prop("C02", "Buffer reservations, refused requests, allocation failure and ownership",
 """After a successful reservation of N bytes, any appends or insertions totalling at most N bytes succeed even if no further memory can be obtained; neither a further (smaller) reservation nor a refused operation takes a reservation back.
 A growing operation that cannot get memory, or whose total size is not representable, reports failure and leaves size and bytes unchanged;
 removals, clears and shrinks keep the right contents whether or not memory can be obtained. Every byte of memory a buffer obtained is released when it is finalized, cleared to empty, or
 handed over by acquire, which returns the block and size to the caller (to be freed by him) and leaves the buffer empty and reusable.""",
 ["inputs","histories","fault_sequences"], "All operation sequences, all requested sizes including those near the maximum representable size, and all allocation-failure points.",
 "The tests never make an allocation fail and never use sizes near SIZE_MAX; leak freedom is not asserted at all.",
 ["data/buffer.c","data/buffer.h"], [("reservation","data/buffer.c:buffer_reserve"),("realloc failure path","data/buffer.c:buffer_realloc"),("ownership transfer","data/buffer.h:buffer_acquire")],
 None, ["return codes, contents after failure, balance of the interposed allocator"], BFS + " with exhaustive allocation-failure plans",
 "Every explored transition is executed with no failure, with the first allocation failing and with all allocations failing; reservations are validated by appending under a totally failing allocator.")

prop("C03", "Stack is last-in first-out for every item type and size",
 """For any sequence of pushes and pops of items of any mix of integer widths, pointers and raw blocks, a pop or peek of a given width
 returns exactly the most recently pushed bytes of that width still on the stack, a pop removes exactly those bytes and a peek removes nothing.
 Size and emptiness always reflect the bytes on the stack; clear empties it, acquire hands over all remaining bytes in push order, and swap exchanges two stacks completely.""",
 ["inputs","histories"], "All sequences of typed and raw push/peek/pop, clear, reserve, acquire and swap operations up to the size bound, from every reachable size/capacity.",
 "test-buffer.c has one stack test pushing a fixed handful of values.",
 ["data/buffer.h","data/buffer.c"], [("typed push/peek/pop wrappers","data/buffer.h:stack_push_*, stack_peek_*, stack_pop_*"),("backing store","data/buffer.c")],
 None, ["values returned by peek/pop, stack_size(), block returned by acquire"], BFS,
 "All typed variants are executed in every reachable (size, capacity) state below the bound.")

prop("C04", "Typed arrays behave as sequences of their element type",
 """For each of the nine element types, after any sequence of appends, inserts at any index, sets, removals of one or several elements,
 and bulk (uninitialised) inserts/appends, the array's element count, emptiness, indexed gets and data pointer agree with an ideal sequence of that type holding the
 same values, with extreme values of the type preserved. Removals running past the end stop at the end (for every count), additions of more elements than can be addressed are refused and change nothing, operations with zero elements succeed and
 change nothing, acquire returns the elements and their count and leaves the array empty.""",
 ["inputs","histories"], "All operation sequences per element type up to the size bound, from every reachable size/capacity, with values covering the extremes of the type.",
 "The tests use only one or two of the nine element types, with a few fixed operations.",
 ["data/buffer.h","data/buffer.c"], [("nine hand-copied families of inline wrappers","data/buffer.h:array_*_*"),("backing store","data/buffer.c")],
 None, ["array_T_size/get/data/const_data, return codes, acquire"], BFS,
 "The harness is instantiated per element type; each inline wrapper of each family is executed in every reachable (size, capacity) state below the bound.")

prop("C05", "Hash table is an exact map from keys to nodes",
 """After any sequence of insertions and removals, a lookup returns the very node that was inserted under an equal key and not removed since,
 and nothing for any other key; insertion of an already present key fails and changes nothing, and removal returns exactly the matching node, or nothing if absent.
 If the unchecked insertion adds several nodes with equal keys, lookup and removal give any one of them as long as there is one, and none is lost.
 This holds for every hash function consistent with key equality, good or degenerate, across all growth and shrinkage of the table. The data macro gives the
 structure in which a node is embedded, wherever it is and by whatever expression the node is given. The callbacks may themselves use other tables.""",
 ["inputs","histories","configurations"], "All sequences of insert / unchecked insert / remove / lookup, for perfect, colliding, constant, extreme-valued and clustered hash functions, with populations crossing every resize threshold in both directions.",
 "test-htable.c uses one hash function and a handful of fixed insertion/removal orders.",
 ["data/htable.c","data/htable.h"], [("slot selection","data/htable.c"),("grow and rehash","data/htable.c"),("shrink and rehash","data/htable.c")],
 [("slot array","number of slots and chains of nodes","data/htable.h:HTABLE")],
 ["lookup of every key of the universe after every operation, htable_is_empty()"], BFS,
 "Small key universes are explored over all operation sequences to closure; populations beyond the resize thresholds are explored over all interleavings of bulk insert/remove moves. Chain order inside a slot is part of the explored state.")

prop("C06", "Hash table cleanup visits every node once; memory failure is harmless",
 """Finalizing a hash table calls the given destructor exactly once for every node still in the table and for no other, works without a destructor, and
 releases all memory the table obtained. When memory cannot be obtained an insertion either succeeds or reports failure with the table unchanged,
 and removals and lookups still give exact answers.""",
 ["histories","fault_sequences"], "All populations and operation histories within the bounds, and every allocation-failure point within them.",
 "No test injects allocation failure; the destructor multiset is not checked after resizes.",
 ["data/htable.c"], [("fini loop","data/htable.c:htable_fini"),("allocation failure in insert/grow/shrink","data/htable.c")],
 None, ["destructor call log, allocator balance, lookups after failed operations"], BFS + " with exhaustive allocation-failure plans",
 "Each explored transition is repeated under every failure plan; each explored state is finalized with and without a destructor (which frees/poisons the node).")

prop("C07", "Doubly linked list keeps exact order in both directions",
 """After any sequence of appends, prepends, insertions before or after any member, and removals of any member, the head or the tail, walking the list forwards
 yields exactly the expected members in the expected order, terminated by the list's end marker, and walking backwards yields the exact reverse.
 Head, tail and emptiness agree with that order, for every list length including empty and singleton, and the payload is recovered from a member's embedded node wherever in the structure it is embedded and by whatever expression the node is given.""",
 ["histories"], "All sequences of operations on all positions over a bounded pool of nodes, including moving nodes between two lists.",
 "test-list.c exercises each operation on a couple of fixed lists.",
 ["data/list.h"], [("sentinel-based linking","data/list.h:list_insert_after, list_insert_before, list_remove")],
 None, ["list_head/tail/next/prev/end walks"], BFS,
 "All reachable arrangements of the node pool are visited and every operation is applied at every position (closure).")

prop("C08", "Singly linked list and queue keep exact order and the queue its tail",
 """After any sequence of prepends, insertions after any member, and removals (of any member given its predecessor, or of the head), and for the queue also appends,
 walking the list yields exactly the expected members in the expected order, terminated by the list's end marker. The queue's tail is always the last
 member (or the end marker when empty), so that a later append always lands at the very end. The payload is recovered from a member's embedded node wherever in
 the structure it is embedded and by whatever expression the node is given.""",
 ["histories"], "All sequences of operations on all positions over a bounded pool of nodes.",
 "test-list.c exercises each operation on a couple of fixed lists.",
 ["data/list.h"], [("tail maintenance","data/list.h:qlist_insert_after, qlist_append, qlist_remove"),("sentinel-based linking","data/list.h:slist_*")],
 None, ["slist/qlist walks, qlist_tail"], BFS,
 "All reachable arrangements of the node pool are visited and every operation is applied at every position (closure).")

prop("C09", "Red-black tree is an exact ordered set of nodes",
 """After any sequence of insertions and removals, lookup returns the very node inserted under an equal key and not yet removed, or nothing;
 inserting an equal node fails and changes nothing; removing returns exactly the matching node, or nothing if absent. In-order traversal yields exactly the present nodes in comparator
 order, for every shape the tree can take, also if the comparison function itself uses other trees. The data macro gives the structure in which a node is embedded, wherever it is and by whatever expression the node is given.""",
 ["histories","inputs"], "All insertion/removal histories leading to any tree shape up to the node bound, every insert position and every removal in each.",
 "Tests use a few ascending/descending/pseudo-random sequences; they cannot visit every rebalancing case in every context.",
 ["data/rbtree.c","data/rbtree.h"], [("insert and fixup","data/rbtree.c:rbtree_insert"),("remove and fixup","data/rbtree.c:rbtree_remove"),("lookup","data/rbtree.c:rbtree_lookup")],
 [("tree shape and colours","which nodes hang where","data/rbtree.h:RBTREE_NODE")],
 ["return values, in-order traversal, lookups of all present and absent ranks"], BFS,
 "All red-black trees reachable with up to N nodes (up to order isomorphism, which is sound because the code sees keys only through the comparator) with every insertion gap and every removal in each of them.")

prop("C10", "Red-black tree stays balanced, so every operation is logarithmic",
 """After any sequence of insertions and removals the tree is a valid red-black tree: the number of nodes on the path to any node never exceeds
 twice log2(n+1), no red node has a red child, and all root-to-leaf paths carry the same number of black nodes. In particular lookup, insertion and removal never make more than twice log2(n+1) comparator calls.""",
 ["histories"], "All insertion/removal histories leading to any tree shape up to the node bound.",
 "The in-tree verifier is called by tests only after a few fixed sequences; height is never bounded.",
 ["data/rbtree.c"], [("insert fixup rotations/recolouring","data/rbtree.c"),("remove fixup rotations/recolouring","data/rbtree.c")],
 None, ["comparator call counts of lookups; depth and colours of the tree"], BFS,
 "Closure over all reachable trees up to N nodes. Colours are read from the node representation documented in rbtree.h and, independently, the comparator-call bound is observed through the API alone.")

prop("C11", "Tree cursors walk in exact order and stop cleanly at both ends",
 """In every tree, starting a cursor at the head, at the tail, or at a looked-up key and moving it by any mix of next and previous steps always returns the in-order
 neighbour of the current node, and the current-node query agrees. Stepping beyond either end returns nothing and leaves the cursor where it was;
 head and tail of an empty tree, and a failed lookup, return nothing.""",
 ["histories","inputs"], "Every tree shape up to the node bound, every starting position, and every sequence of next/previous moves up to the length bound.",
 "Tests walk a few trees in one direction only.",
 ["data/rbtree.c","data/rbtree.h"], [("cursor stack maintenance","data/rbtree.c:rbtree_next, rbtree_prev, rbtree_lookup_ex, rbtree_head, rbtree_tail")],
 [("cursor","path from root to the current node","data/rbtree.h:RBTREE_CURSOR")],
 ["nodes returned by rbtree_head/tail/next/prev/current/lookup_ex"], BFS,
 "Closure: the set of cursor states over each tree (tree x position x how it was reached) is explored with both moves from every position.")

prop("C12", "Tree cleanup delivers every node exactly once and leaves an empty tree",
 """Repeating the cleanup step on any tree delivers every node that was in the tree exactly once, and then nothing; it never touches a node again after delivering it,
 so the caller may destroy it immediately. Afterwards the tree is a valid empty tree that can be used again.""",
 ["histories"], "Every tree shape reachable by insertions and removals up to the node bound.",
 "Tests run it on a couple of trees without destroying nodes.",
 ["data/rbtree.c"], [("destructive traversal","data/rbtree.c:rbtree_fini_step")],
 None, ["delivered nodes, memory accesses to destroyed nodes (AddressSanitizer), reuse afterwards"], BFS,
 "Closure over all reachable trees up to N nodes; delivered nodes are freed at once so that any later access is a detected use-after-free.")

prop("C13", "Scalar values round-trip and wrong-type reads give neutral defaults",
 """A value initialised as null, bool, 32/64-bit signed or unsigned integer, float or double reports that type and its getter returns exactly what was stored (bit-exact for numbers,
 0/1 for booleans). A new-flag is never set on an explicitly initialised value; missing (NULL) values and values of a non-matching type give the neutral answer of each reader (null type; minus one, i.e. the maximum for unsigned types,
 from the boolean and numeric getters; no string, length zero, size zero, nothing found; modifications refused), never a crash.""",
 ["inputs"], "All 2^32 patterns of 32-bit types in the thorough tier, all boundary and bit-pattern families of 64-bit types, all (stored type x getter) pairs.",
 "test-value.c stores a handful of constants per type.",
 ["data/value.c","data/value.h"], [("inline storage of scalars","data/value.c:value_init_*"),("getters","data/value.c")],
 None, ["value_type and all getters"], ENUM,
 "Complete enumeration of 16-bit-stride and boundary families (quick) and of all 2^32 32-bit patterns (thorough).")

prop("C14", "Numeric conversions and compatibility verdicts are exact",
 """For every stored number and every numeric target type: if the value is reported compatible with the target then reading it as the target gives the mathematically equal number (for floating targets rounded to nearest, ties to even). Compatibility with an integer type is
 reported exactly when the number is in the target's range and has no fraction (NaN and infinities are never compatible); a number exactly representable in the target is always reported compatible, every value is compatible with its own type, and non-numeric types only with themselves.
 Reading a finite floating value which fits the integer type after rounding to nearest (halves away from zero) yields that rounded integer.""",
 ["inputs"], "All boundary neighbourhoods of all numeric ranges and all float bit patterns (thorough: complete), times all target types.",
 "test-value.c checks a few constants; odd integers just above 2^23/2^52, values adjacent to the range limits, NaN and infinities are not covered.",
 ["data/value.c"], [("range checks","data/value.c:value_is_compatible"),("rounding conversions","data/value.c:value_int32 ... value_uint64, ROUNDF/ROUNDD")],
 None, ["value_is_compatible and numeric getters"], ENUM,
 "Oracle computes with integer arithmetic on the decoded sign/exponent/mantissa. Conversions C leaves undefined (NaN, out of range) are not judged, except that compatibility must be denied.")

prop("C15", "String values preserve any bytes of any length",
 """A string value created from any byte sequence, embedded zero bytes included, reports exactly that length, returns exactly those bytes and one zero terminator after them;
 a missing (NULL) source string is the empty string, and the plain-C-string constructor stops at the first zero. The stored string is independent of the source buffer, creation under memory failure
 reports an error, and finalizing releases everything.""",
 ["inputs","fault_sequences"], "All lengths from 0 through the bound plus all encoding boundaries of the length up to beyond 2^31 (thorough), with varied contents, and allocation failure at every length.",
 "test-value.c uses a few short ASCII strings; the variable-length size header changes layout at 14, 128, 16384, 2^21, 2^28 bytes.",
 ["data/value.c"], [("inline versus heap strings and the length header","data/value.c:value_init_string_, value_string, value_string_length")],
 None, ["value_string, value_string_length, allocator balance"], ENUM + " with exhaustive allocation-failure plans", "Lengths are enumerated without gaps through the first three header boundaries and at +-1 around the remaining ones.")

prop("C16", "Array values behave as sequences and mark new items",
 """After any sequence of appends, inserts at any index, removals of items or ranges and cleans, an array value holds exactly the items of the equivalent ideal sequence, in order and with their
 contents intact. Every added item starts as null with the new-flag set until explicitly initialised; indexes out of range are refused with an error or nothing, without any change, and removing a range or item
 finalizes precisely those items.""",
 ["histories","inputs","fault_sequences"], "All operation sequences to the depth bound, all indexes and counts (including ones that overflow), sizes across every growth and shrink threshold, and allocation failures.",
 "test-value.c checks a short fixed sequence.",
 ["data/value.c"], [("array storage and growth","data/value.c:value_array_insert, value_array_remove_range, value_array_clean")],
 [("array payload","item count, capacity, items","data/value.c")],
 ["value_array_size/get/get_all, value_is_new, allocator balance"], BFS + " with exhaustive allocation-failure plans", "Closure over (size, capacity) up to the size bound with item identity checked through unique heap-allocated contents.")

prop("C17", "Dictionary values are exact ordered maps",
 """After any sequence of add, get-or-add, remove and clean, a dictionary has exactly the expected set of keys (byte strings, zero bytes allowed, NULL meaning the empty key), each bound to its own value;
 adding a used key is refused, get-or-add returns the existing value or a new one flagged as new, removing an absent key is refused. Sorted listing and sorted walk give the keys in the order of the comparison function
 (by default lexicographic by unsigned bytes, shorter first on a tie), truncated to the caller's buffer, and a walk stops as soon as the visitor returns non-zero, returning that value. A custom comparison function may itself use other dictionaries.""",
 ["histories","inputs","configurations"], "All operation sequences over key universes with all insertion gaps up to the node bound, default and custom comparison functions, all key pairs over a small alphabet with lengths across the inline limit.",
 "test-value.c uses a few fixed keys and orders.",
 ["data/value.c"], [("red-black tree of items with inline key and value","data/value.c:value_dict_*"),("default comparison","data/value.c:value_dict_cmp")],
 None, ["value_dict_size/get/keys_sorted/walk_sorted, value_is_new"], BFS, "Closure over all dictionary tree shapes up to the node bound (order isomorphism of keys), plus exhaustive pairwise key-order enumeration.")

prop("C18", "Dictionary stays balanced under every insertion and removal history",
 """After any sequence of insertions and removals a lookup in a dictionary of n keys compares at most twice log2(n+1) keys, and the dictionary's internal tree satisfies the red-black rules.
 Adding and removing compare at most twice as many.""",
 ["histories"], "All insertion/removal histories leading to any tree shape up to the node bound.",
 "The in-tree verifier runs in tests after a few fixed sequences only.",
 ["data/value.c"], [("dictionary rebalancing (separate copy of the red-black code)","data/value.c:value_dict_fix_after_insert, value_dict_fix_after_remove")],
 None, ["comparison-function call counts; the test-only verifier if present"], BFS, "Closure over all reachable dictionary shapes up to the node bound; comparison counts observed through a custom comparison function.")

prop("C19", "Order-keeping dictionaries list keys in insertion order",
 """A dictionary created with the maintain-order flag lists and walks its keys exactly in the order in which the present keys were added, through any history of adds, removals, re-adds and cleans, truncated to the caller's buffer,
 and a walk stops when the visitor returns non-zero, returning that value. A dictionary created without the flag lists no keys in insertion order, and sorted listings are unaffected by the flag.""",
 ["histories","configurations"], "All add/remove/clean histories over a bounded key set, all shapes of the tree with all insertion orders.",
 "test-value.c checks one or two insertion orders.",
 ["data/value.c"], [("order list threaded through items","data/value.c:value_dict_* with VALUE_DICT_MAINTAINORDER")],
 None, ["value_dict_keys_ordered, value_dict_walk_ordered"], BFS, "Closure over all (tree shape, insertion order) states up to the node bound.")

prop("C20", "Path lookup resolves exactly the documented path language",
 """Looking up a path in any value hierarchy returns precisely the value reached by taking its components from left to right - a key selects a dictionary member, a bracketed non-negative index an array item, a bracketed negative index an item counted from the end -
 where slashes (one or more) separate components, are optional before a bracket and are insignificant at either end, and the empty path is the root. Whenever any step names a missing key, an out-of-range index (however many digits it has) or a container of the wrong type, or has something else than an integer between brackets, nothing is returned and the hierarchy is not changed.""",
 ["inputs"], "All path strings up to the length bound over the alphabet of special characters, digits and key letters, over several nested hierarchies, plus index numerals around every overflow boundary.",
 "test-value.c resolves a dozen hand-written paths.",
 ["data/value.c","data/value.h"], [("path tokenizer and index parser","data/value.c:value_path, value_path_array_item")],
 None, ["pointer returned by value_path"], ENUM, "Complete enumeration of strings over the alphabet; strings outside the documented grammar (e.g. unterminated brackets) are only required not to crash or change anything.")

prop("C21", "Path building creates exactly the missing parts",
 """Building a path that already resolves returns the same value a lookup returns and changes nothing. Otherwise each missing dictionary key is added, an empty bracket appends one new array item, intermediate new values become the container the next component needs,
 and the final new value is null with the new-flag set; afterwards looking up the same concrete path finds the returned value. Type conflicts, out-of-range indexes and memory failures give nothing, and never disturb values that existed before.""",
 ["inputs","histories","fault_sequences"], "All well-formed paths over a bounded component alphabet, applied in all sequences to the depth bound to initially empty or populated hierarchies, with every allocation-failure point; and every short string, numeral and long path as for lookup, each on its own.",
 "test-value.c builds a few hand-written paths.",
 ["data/value.c","data/value.h"], [("on-demand creation","data/value.c:value_build_path")],
 None, ["returned pointer, full structural dump of the hierarchy before and after"], BFS + " with exhaustive allocation-failure plans", "The hierarchy after each step is compared structurally with a reference interpreter of the documented semantics.")

prop("C22", "Value hierarchies release everything and survive memory failure",
 """Finalizing (or cleaning, removing, or overwriting after finalizing) any nested hierarchy of values releases every allocation made for it exactly once, however it was built and nested (as deep as the documented recursion has stack for). When memory cannot be obtained at any point of any operation, that operation
 reports failure, all previously stored values stay intact and readable, and nothing leaks.""",
 ["histories","fault_sequences"], "All construction/destruction histories over nested arrays, dictionaries and strings up to the depth bound, with a failure at every allocation point.",
 "No test injects allocation failure or checks for leaks.",
 ["data/value.c"], [("recursive finalization","data/value.c:value_fini"),("failure paths of array growth, item creation and string copy","data/value.c")],
 None, ["allocator balance, structural dump after each failed operation"], BFS + " with exhaustive allocation-failure plans", "Balance is exact because allocations are interposed; use-after-free and double free are detected by AddressSanitizer.")

prop("C23", "Base64 encoding is the standard one and decoding inverts it",
 """For every byte sequence and every dialect (choice of the two special characters, and padding character or none), encoding gives exactly the RFC 4648 text in that dialect and its length.
 Decoding that text with the same dialect, with or without the padding, gives back exactly the original bytes and their count.""",
 ["inputs","configurations"], "All byte strings of length up to 2 completely (3 in the thorough tier), all lengths through the bound, all values of every 6-bit group at every position, all special-character choices.",
 "test-base64.c checks a few vectors in the default dialect.",
 ["encode/base64.c","encode/base64.h"], [("24-bit grouping","encode/base64.c:base64_encode"),("decode table","encode/base64.c:base64_decode")],
 None, ["returned length, output text and bytes"], ENUM, "Encoding acts on independent 3-byte groups, so complete groups at every tail length and positions cover the algorithm; the independence itself is explored by multi-group inputs.")

prop("C24", "Base64 decoding accepts exactly the valid texts",
 """Decoding accepts a text exactly when it is an encoding of some bytes in the dialect, with or without the padding: only alphabet characters, optionally followed by the padding that completes the last group, a length that can result from whole bytes, and no stray bits
 in the last character; every other input, with any byte values anywhere, is refused with a negative result. No input, however malformed, makes the decoder read or write outside the given buffers.""",
 ["inputs","configurations"], "All byte strings up to length 3 over all 256 byte values, all strings of 4 and more over representative classes, all dialects including special characters with the top bit set.",
 "test-base64.c tries a handful of malformed inputs.",
 ["encode/base64.c"], [("validation of characters, padding and tail","encode/base64.c:base64_decode")],
 None, ["return value, guard zones around exact-size buffers (AddressSanitizer)"], ENUM, "Texts of 4 and more characters are enumerated over class representatives (alphabet ends of each range, special characters, padding, neighbours of valid ranges, zero, top-bit bytes).")

prop("C25", "Base64 respects output sizes",
 """Given no output buffer, encoding and decoding return a size that is sufficient for the corresponding real call, which then writes at most that much. Given a buffer of any size, they either succeed, writing only within it (adding the zero terminator only if there is room),
 or return a negative value without writing outside it; input sizes whose encoded size is not representable in the result are refused.""",
 ["inputs"], "All (input length, output size) pairs up to the bound, all tails and paddings, and input sizes at the arithmetic limits.",
 "Tests always pass comfortably large buffers.",
 ["encode/base64.c"], [("output size computation","encode/base64.c:base64_encode, base64_decode")],
 None, ["return value, guard zones around exact-size buffers (AddressSanitizer)"], ENUM, "Sizes at the 32-bit limits are exercised with a size-only query and with too-small buffers, which must be refused before any byte is touched.")

prop("C26", "Hexadecimal coding round-trips and rejects everything else",
 """Encoding any byte sequence gives two hexadecimal digits per byte in the requested case, high nibble first, and decoding gives back exactly those bytes; decoding also accepts any mix of cases.
 Decoding refuses, with -1, every text of odd length or containing any character other than 0-9, a-f, A-F.""",
 ["inputs"], "All byte strings of length up to 2 (3 thorough), all 2-character strings over all 256 byte values at every position of longer texts, all lengths through the bound.",
 "test-hex.c checks a few vectors; most invalid characters are never tried.",
 ["encode/hex.c","encode/hex.h"], [("digit classification","encode/hex.c:hex_decode"),("digit tables","encode/hex.c:hex_encode")],
 None, ["return value, output text and bytes"], ENUM, "Digit pairs are independent; complete enumeration of pairs at every position of multi-pair texts.")

prop("C27", "Hexadecimal coding respects output sizes",
 """Given no output buffer, encoding and decoding return the documented ideal size (twice the input plus one, and half the input). Given a buffer, they return the exact count written, zero-terminating the encoded text only if it fits, or -1 if the buffer
 is too small, never writing outside it, for all input sizes up to the maximum of the size type.""",
 ["inputs"], "All (input length, output size) pairs up to the bound and input sizes at the arithmetic limits.",
 "Tests always pass sufficient buffers.",
 ["encode/hex.c"], [("size checks","encode/hex.c:hex_encode, hex_decode")],
 None, ["return value, guard zones around exact-size buffers (AddressSanitizer)"], ENUM, "Sizes at the 32-bit limits are exercised with too-small buffers, which must be refused before any byte is touched.")

prop("C28", "CRC-32 equals its bitwise definition for every block",
 """For every data block, of any length (including zero and beyond 2^31 bytes) and any alignment, the checksum equals the one computed bit by bit from the reflected polynomial 0xEDB88320 with all-ones initial value and final inversion.
 No byte outside the block influences it and repeated calls agree.""",
 ["inputs"], "All blocks of one and two bytes (three in the thorough tier), all byte values at all positions of longer blocks, all lengths through the bound at all alignments, block lengths around 2^31.",
 "test-crc32.c checks a few vectors.",
 ["hash/crc32.c","hash/crc32.h"], [("table-driven update","hash/crc32.c")],
 None, ["returned checksum"], ENUM, "CRC is linear; covering all single-byte steps from all 2^8 low register bytes plus all lengths and alignments covers the table and the loop. The linearity argument is only used to choose inputs, results are compared with the bitwise reference.")

prop("C29", "FNV-1a hashes equal their definition and compose incrementally",
 """For every starting value and data block, the 32-bit and 64-bit hashes equal the FNV-1a recurrence (xor the byte, multiply by the FNV prime, modulo the word size), for all byte values. Hashing a block in consecutive pieces, feeding each result into the next call, gives
 the same result as one call; hashing zero bytes returns the starting value.""",
 ["inputs"], "All byte values at all positions up to the bound, all lengths through the bound at all alignments, all split points, and starting-value families covering each bit.",
 "test-fnv1a.c uses the published vectors from the standard base only.",
 ["hash/fnv1a.c","hash/fnv1a.h"], [("byte loop","hash/fnv1a.c")],
 None, ["returned hash"], ENUM, "The reference uses a shift-add decomposition of the primes, independent of the code's arithmetic.")

prop("C30", "Stack-or-heap allocation gives usable memory and releases heap blocks once",
 """For every requested size and threshold, the allocation macro yields a writable block of at least the requested size, aligned for pointers, which overlaps no other live block and keeps its contents until released, or nothing if memory is not available
 or the size is not representable. Requests that exceed the threshold do not consume stack, small ones do not consume heap; releasing frees each heap block exactly once, and is harmless for stack blocks and for a missing (NULL) block. This holds for any valid argument expressions.""",
 ["inputs","configurations","fault_sequences"], "All sizes through the bound for all thresholds through the bound, sizes near the maximum representable, compound argument expressions and allocation failure.",
 "test-malloca.c tries a handful of sizes with plain arguments.",
 ["mem/malloca.h"], [("threshold decision and marker word","mem/malloca.h:MALLOCA_, malloca_set_mark__, FREEA")],
 None, ["block usability, allocator log, stack consumption"], ENUM + " with exhaustive allocation-failure plans", "Small means strictly below the threshold by more than one machine word, large means above the threshold; in between either placement is accepted.")

prop("C31", "Chunk allocations are disjoint, sized and stable until the end",
 """After any sequence of allocations of any sizes, every block handed out is at least as large as requested, overlaps no other block, and keeps its contents until the allocator is finalized. If all requests are multiples of the size of a pointer, all blocks are aligned for pointers. This holds for every block size including the default, and for both
 ways of initialising the allocator.""",
 ["histories","inputs","configurations"], "All sequences of request sizes to the depth bound around every decision boundary of the allocator (zero, quarter block, remaining space, block size and beyond), for several block sizes.",
 "test-memchunk.c makes a few fixed sequences.",
 ["mem/memchunk.c","mem/memchunk.h"], [("bump allocation in head block and dedicated big blocks","mem/memchunk.c:memchunk_alloc")],
 [("free offset and block list","what remains in the head block","mem/memchunk.h:MEMCHUNK")],
 ["returned addresses, contents, AddressSanitizer"], BFS, "Closure over the free-offset state space for small block sizes; blocks are kept filled with distinct patterns and rechecked after every operation.")

prop("C32", "Chunk allocator refuses the impossible and releases everything at once",
 """When memory cannot be obtained or the requested size is not representable, the allocation returns nothing, all previously handed out blocks stay intact and later allocations work normally. Finalizing releases all memory obtained, exactly once, after any
 history, and the finalized allocator can be used again.""",
 ["histories","inputs","fault_sequences"], "All allocation histories to the depth bound with a failure at any allocation, sizes near the maximum representable, and reuse after finalization.",
 "No test injects failures or passes huge sizes; leaks are not checked.",
 ["mem/memchunk.c"], [("failure paths","mem/memchunk.c:memchunk_alloc"),("release loop","mem/memchunk.c:memchunk_fini")],
 None, ["return value, allocator balance, contents of earlier blocks"], BFS + " with exhaustive allocation-failure plans", "Every allocation in every explored state is also executed with a failing allocator and with sizes at the arithmetic limits.")

prop("C33", "Command line parsing reports exactly the documented sequence of events",
 """For every option table and argument vector, the callback is invoked with exactly the sequence of identifiers and arguments the documentation prescribes: short options and their groups, long options with and without an equals-argument, required arguments (inline or from the next token for short and compiler-like options, after the equals sign for long ones),
 compiler-like prefixed options, positional arguments, and the terminating double dash. Nothing is skipped, duplicated or reported out of order, the program name is ignored, and on success zero is returned.
 Arguments which are part of the command line are handed over such that they stay valid as long as the command line does, and the callback may itself parse another command line.""",
 ["inputs","configurations"], "All argument vectors up to the length bound over a token alphabet covering every syntactic form, for a family of option tables covering all flag combinations.",
 "test-cmdline.c runs a few dozen hand-written command lines against one table.",
 ["misc/cmdline.c","misc/cmdline.h"], [("token classification","misc/cmdline.c:cmdline_read"),("short groups","misc/cmdline.c:cmdline_handle_short_opt_group")],
 None, ["callback log"], ENUM, "The reference parser was written from cmdline.h and the project's tests.")

prop("C34", "Command line errors are reported by name and callbacks can abort",
 """Unknown options, missing arguments and unexpected arguments are reported with the special identifiers and the offending token or option name (very long names may be cut), whatever the length of the token, without any access outside the given strings.
 As soon as the callback returns non-zero, no further callback happens and that same value is returned. A reported name stays intact until the callback returns, even if the callback itself parses another command line.""",
 ["inputs","configurations"], "All argument vectors to the length bound with token lengths across the internal name limit, and an abort with positive and negative values at every callback position.",
 "test-cmdline.c never aborts from most positions and never uses long tokens.",
 ["misc/cmdline.c"], [("bounded name copy for error reports","misc/cmdline.c"),("callback result propagation","misc/cmdline.c")],
 None, ["callback log, return value, AddressSanitizer on exact-size strings"], ENUM, "Names longer than the reporting limit are only required to be a prefix of the name, at least 16 characters long.")

prop("C35", "Arithmetic and layout helper macros are correct for every operand",
 """Minimum, maximum (of two and three), clamp and absolute value give the mathematically correct result for every combination of operands of every arithmetic type for which it is representable, also when the operands are compound expressions.
 Array-size, member-offset, containing-structure and stringify helpers agree with the language's own notion for every member and array.""",
 ["inputs","configurations"], "All operand combinations over complete small domains and boundary values of each arithmetic type, and operators of every precedence in operand expressions.",
 "test-defs.c evaluates each macro on a few constants.",
 ["misc/defs.h"], [("macro definitions","misc/defs.h")],
 None, ["macro results"], ENUM, "Complete over 8-bit operands (pairs and triples), boundary sets for wider types.")

prop("C36", "Memory stream reads and seeks like an ideal read-only file",
 """After any sequence of reads and seeks, each read returns exactly the bytes from the current position, as many as requested but not past the end, with the right count and success/partial code, and advances the position by that count; each seek moves to the documented position or fails without moving, and reports the new position.
 Positions beyond the end are allowed and read nothing; negative positions and unknown origins are refused.""",
 ["inputs","histories"], "All sequences of reads and seeks with lengths and offsets around every boundary, for several stream sizes including empty.",
 "test-memstream.c is compiled only on Windows and checks one short sequence.",
 ["win32/memstream.c","win32/memstream.h"], [("position arithmetic","win32/memstream.c:memstream_Read, memstream_Seek")],
 [("position","current offset","win32/memstream.c")],
 ["HRESULT, bytes, counts, positions"], BFS, "The unmodified source is compiled against a small shim of the Win32/COM declarations it uses (in /verif/mc/win32shim), with ULONG/LONG of 32 bits as on Windows.")

prop("C37", "Memory stream copies, clones, describes itself and refuses writes",
 """Copying to another stream transfers exactly the available bytes up to the requested count, whatever that count is, reports the counts and stops on the target's error; a clone has the same contents and position and is then independent. Status reports the stream type and size, a read-only mode, no name and no lock support; writing and resizing are refused, region locking is reported
 unsupported, commit and revert are harmless, and an interface query answers exactly for the three interfaces the stream implements (IUnknown, ISequentialStream, IStream), adding a reference only then; failure to get memory is reported as an error.""",
 ["inputs","histories","fault_sequences"], "All positions and copy counts around every boundary including the maximum count, all target behaviours (accept, partial, error), all known interface ids, and allocation failure.",
 "No test covers these methods.",
 ["win32/memstream.c"], [("CopyTo, Clone, Stat, QueryInterface","win32/memstream.c")],
 None, ["HRESULT, bytes received by the target, counts, allocator balance"], BFS, "Same shim as C36; the target stream is a recording stand-in.")

prop("C40", "A stream from a resource holds exactly the resource, or failure is reported",
 """Making a stream from a resource asks for exactly the named resource of the named type in the given module and gives a stream over exactly its bytes. If any step fails (the resource is not found, has no size, cannot be loaded or locked, or there is no memory), a failure code is returned and no stream;
success is never reported without a stream, also where the failing step sets no error code.""",
 ["inputs","fault_sequences"], "Every failing step, combined with every error code class including none, every size class, stale error codes and allocation failure.",
 "No test covers it.",
 ["win32/memstream.c"], [("resource lookup","win32/memstream.c:memstream_create_from_resource")],
 None, ["HRESULT, stream pointer, bytes of the stream"], ENUM, "Same shim as C36; the resource functions of Windows are stand-ins which fail on demand at each step.")

prop("C38", "Memory stream lives exactly as long as it is referenced, from any threads",
 """However threads interleave their taking, cloning and dropping of references to a stream, the stream stays usable while at least one reference is held and is freed exactly once, when the last one is dropped. The count returned when the last reference is dropped is zero and is
 returned to exactly one caller.""",
 ["schedules"], "All interleavings, at every access to a stream object, of two to four threads each performing every sequence of add/release/query/use/clone/hand-over operations up to the length bound.",
 "test-memstream.c is single-threaded and Windows-only.",
 ["win32/memstream.c"], [("interlocked reference counting","win32/memstream.c:memstream_AddRef, memstream_Release")],
 [("reference count","how many owners hold the stream","win32/memstream.c")],
 ["free calls, accesses to freed streams, returned counts"], SCHED, "Sequentially consistent interleavings at the granularity of single accesses to the reference count; the interlocked primitives of the shim are atomic scheduling points.")

prop("C39", "Calls on distinct objects from distinct threads never interfere",
 """Any two threads that call the library at the same time on objects they do not share get, in every interleaving, exactly the results each would get alone. No call keeps or modifies hidden state shared between
 unrelated objects.""",
 ["schedules","inputs"], "All interleavings, modulo commutation of independent accesses, of two threads each running any of a family of workloads that together call every module, in every pair, including first-ever calls; where they share writable memory, with up to two (thorough: three) preemptions at accesses to it.",
 "All tests are single-threaded.",
 ["data/buffer.c","data/htable.c","data/rbtree.c","data/value.c","encode/base64.c","encode/hex.c","hash/crc32.c","hash/fnv1a.c","mem/memchunk.c","misc/cmdline.c"], [("absence of mutable static data","all modules")],
 None, ["results of each thread, conflicting memory accesses"], "stateless model checking of the real code (partial-order reduction over instrumented memory accesses)", "Each module is compiled with memory-access instrumentation whose runtime is the explorer; if no two threads ever make conflicting accesses one execution represents all interleavings, otherwise the conflicting interleavings are executed.")

prop("C41", "Growing containers take memory in proportion to their items",
 """However items are added to and removed from a buffer, stack, typed array, value array, dictionary or hash table which no reservation was made for, the memory it holds stays within a constant factor (ten times, plus 1 KB) of the memory its current items need,
 so memory is returned as the container shrinks, and all memory it ever requested stays within a constant factor of the size of the items ever added and removed: growing is by a factor, and no sequence of operations makes the container reallocate again and again.""",
 ["histories"], "All sequences to the depth bound of adding, removing, doubling, halving, shifting, filling, emptying and alternating, at either end and at whatever boundary the container then is, plus filling and draining at large sizes.",
 "No test looks at the capacity or at the allocator, so a container which grows by a fixed step, never shrinks, or thrashes at one particular size passes.",
 ["data/buffer.c","data/buffer.h","data/value.c","data/htable.c"], [("growth policy","data/buffer.c:buffer_good_alloc_size"),("shrinking on removal","data/buffer.c:buffer_remove"),("value array and order array capacity","data/value.c:value_array_realloc, value_dict_add_"),("planes","data/htable.c:htable_grow, htable_shrink")],
 [("capacity","how much memory the container owns","data/buffer.h:BUFFER")],
 ["bytes currently allocated, total of all bytes requested (interposed allocator)"], BFS + " with memory accounting, and " + ENUM.replace("bounded-exhaustive", "exhaustive"), "The real factors are about 3.4 (held) and 3.9 (requested), the limit of ten leaves freedom to change the policy. The work of a hash table, which frees everything when it gets empty, counts 60 bytes per item.")

prop("C42", "Chunk allocator takes few blocks from the heap",
 """Small requests to the chunk allocator share blocks: each request larger than a quarter of the block size costs at most one heap block of its own, and all other requests together, in any order and however mixed with large ones, cost at most one block plus one per
 three quarters of a block of requested bytes. A large request does not make the room left in the current block unusable. This holds for both ways of initialising the allocator, by whatever expression the block size is given.""",
 ["histories","inputs","configurations"], "All sequences of request sizes to the depth bound around every decision boundary of the allocator, for several block sizes, and long runs of one size interleaved with another.",
 "test-memchunk.c does not look at how many blocks are taken.",
 ["mem/memchunk.c","mem/memchunk.h"], [("current block and dedicated big blocks","mem/memchunk.c:memchunk_alloc")],
 [("block list","the head is the block being filled","mem/memchunk.h:MEMCHUNK")],
 ["number of live heap blocks (interposed allocator)"], BFS, "Requests within a word of the limit count as either.")

prop("C43", "Hash table lookups with evenly spread hash values stay short",
 """With hash values that are consecutive or spread by a good mixing function, inserting, looking up (present or absent) and removing in a hash table of any size compare only a few nodes (on average at most ten in tables of up to 1000 nodes and fifteen in tables of up to 60000, never more than forty), after any history of growing,
 shrinking and replacing nodes; the table never degenerates into long chains.""",
 ["histories","inputs"], "Every table size to the bound and large ones beyond, three families of hash values, and histories of growing, draining from either end, replacing every node and repeatedly shrinking and growing again.",
 "test-htable.c checks what lookups return, which does not depend on where nodes are.",
 ["data/htable.c","data/htable.h"], [("plane and slot choice","data/htable.c:htable_insert_, htable_lookup_"),("growing and shrinking","data/htable.c:htable_grow, htable_shrink")],
 None, ["number of calls of the comparison function"], ENUM.replace("all inputs", "all sizes and histories"), "Real worst case about 7, 12 and 14 comparisons for consecutive, multiplicative and mixed values (limits 16, 24, 30), average 3.1.")

prop("C44", "Asking never modifies: getters, lookups, walks and const inputs",
 """Getters, size and emptiness tests, data pointers, lookups, path lookups, compatibility verdicts, key listings, walks, cursors and iteration never write into the object asked or into anything it holds, in any state it can be in, not even temporarily, and
 leave no memory behind; so any number of threads may query one object at the same time. Hashing, encoding, decoding, command line parsing and all functions that store or look up data, keys or paths do not write into the inputs they are given either.""",
 ["histories","inputs","schedules"], "All sequences of operations to the depth bound on each kind of object, and large ones, with every query made after every operation; every function with const input for all lengths to the bound.",
 "A test sees only what a query returns; a query which reorganises the object, or marks it and undoes it, returns the same results until two threads ask at once or the object is in read-only memory.",
 ["data/buffer.h","data/htable.c","data/list.h","data/rbtree.c","data/value.c","encode/base64.c","encode/hex.c","hash/crc32.c","hash/fnv1a.c","misc/cmdline.c"],
 [("lookup in planes","data/htable.c:htable_lookup_internal"),("cursor keeps its own stack","data/rbtree.c:rbtree_next, rbtree_prev"),("walks and listings","data/value.c:value_dict_walk_sorted, value_dict_keys_sorted"),("tokens are not copied nor cut","misc/cmdline.c:cmdline_read")],
 None, ["write access to memory of the object or input (page protection)"], ENUM.replace("all inputs", "all histories and inputs"), "Everything the object consists of lies in write-protected pages while it is asked, so every write faults. That concurrent queries do not interfere follows as reads commute: one schedule represents all.")

NOT_APPLICABLE = []

HERE_CLAIMED = None  # filled from tools/claimed.txt
def main():
    claimed = [l.strip() for l in open(os.path.join(ROOT, "tools", "claimed.txt")) if l.strip() and not l.startswith("#")]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            o = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))
            if p["state"]: o["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]]
            if p["observe"]: o["anchors"]["observe_at"] = p["observe"]
            o["anchors"]["hook_needed"] = None
            f.write(json.dumps(o) + "\n")
    checks = []
    na = []
    for p in P:
        if p["id"] in claimed:
            checks.append(dict(property=p["id"], quick_cmd="bin/check %s quick" % p["id"],
                               thorough_cmd="bin/check %s thorough" % p["id"],
                               evidence_file="evidence/%s.json" % p["id"],
                               technique=p["technique"], level="model_checking", level_note=COMMON.replace("\n", " ") + p["note"]))
        else:
            na.append(dict(property=p["id"], reason=p["na"] or "check not built yet"))
    m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
             notes="See DESIGN.md. All checks compile /repo's working tree at run time; nothing is cached from another tree.")
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
main()
