#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Vector behaves as a sequence under every history of operations",
  "After any sequence of constructions, pushes, pops, insertions, removals, appends, assignments, reservations, clears, clones and writes through slices, a Vector holds exactly the elements, in exactly the order, that a plain sequence would, and every operation returns what the plain sequence returns. pop on an empty vector and remove past the end return None and change nothing; insert past the end panics and changes nothing; clone and assign copy and leave the source untouched. This holds for every element size and alignment.",
  ["histories", "inputs"], "all operation sequences, from every reachable length and capacity, all indices, element types of any size and alignment",
  "The tests run about 40 short fixed sequences on u32 or String; they never combine a grow with an insert in the middle at each index, assign over a longer vector, or use over-aligned elements.",
  ["src/vector/mod.rs"], [("shift right on insert and left on remove", "Vector::insert, Vector::remove"), ("copy on growth", "Vector::reserve"), ("clone one by one", "Vector::append, Vector::assign")],
  ["return values", "as_slice / len / is_empty / iteration"],
  [("begin/end/capacity", "live prefix and storage of the vector", "src/vector/mod.rs struct Vector")])

p("C02", "Vector capacity grows as EASTL's and storage stays put while it fits",
  "A Vector's length never exceeds its capacity; a push or insert into a full vector doubles the capacity (0 becomes 1), reserving adds exactly the requested number of slots to the capacity, and append or assign grows only when the result does not fit, to exactly the needed capacity. Whenever the elements fit, no operation other than reserve moves them or allocates, pop and remove keep the capacity, clear gives the storage back, and is_full is true exactly when length equals capacity.",
  ["histories"], "all operation sequences, from every reachable length and capacity",
  "The tests check the capacity after a handful of pushes; the capacity is a function of the whole history, and stability of the storage is never looked at.",
  ["src/vector/mod.rs"], [("growth policy", "Vector::calculate_grow_capacity, Vector::grow"), ("additive reserve", "Vector::reserve")],
  ["capacity()", "is_full()", "as_slice().as_ptr()", "the allocator's request log"])

p("C03", "A vector's owning iterator yields each element once from either end",
  "Consuming a Vector by value yields every element exactly once, front calls in order and back calls in reverse order, however the two are interleaved; after the last element both ends return None for ever. At every point the iterator's remaining slice, length and emptiness describe exactly the elements not yet yielded, and dropping it part-way drops exactly those and frees the storage once.",
  ["histories", "inputs"], "all interleavings of front and back calls, from every length and capacity, abandoned at every point",
  "The tests take two or three elements from one short vector; the interleavings and the abandonment points are exponentially many.",
  ["src/vector/into_iter.rs", "src/vector/mod.rs"], [("two cursors over one buffer", "IntoIter::next, IntoIter::next_back"), ("drop of the remainder", "Drop for IntoIter")],
  ["returned elements", "as_slice / len / is_empty / capacity", "element and allocation registries"])

p("C04", "Deque behaves as a double-ended sequence under every history",
  "After any sequence of pushes and pops at either end, removals by index, and writes through mutable access, a Deque holds exactly the elements, in exactly the order, that a plain double-ended sequence would; every operation and len, is_empty, front and back return what the plain sequence returns. This holds wherever the contents lie in the block map, across every block boundary, reuse of spare map slots at either end and reallocation of the map.",
  ["histories", "inputs"], "all operation sequences, at every placement of the contents in blocks and map, all removal indices, all element size classes",
  "The tests push and pop a few elements in a fixed order; the branches that slide or reallocate the map depend on the position of both ends, which only long mixed histories reach.",
  ["src/deque/mod.rs", "src/util.rs"], [("map growth and sliding", "Deque::realloc_ptr_array"), ("block allocation at boundaries", "push_front/push_back/pop_front/pop_back"), ("element shift", "Deque::remove, util::rotate")],
  ["return values", "len/is_empty/front/back", "iteration"],
  [("map size, first and last block, offsets", "placement of the contents", "src/deque/mod.rs struct Deque")])

p("C05", "Deque iterators visit each element once, in order, from either end",
  "From every state a Deque can reach, shared, mutable and owning iteration yields each element exactly once, in order from the front and in reverse from the back, for every interleaving of the two ends, and then returns None for ever. Converting a partly consumed iterator into a pair of binary-compatible iterators and back loses and repeats nothing, and the pair obeys EASTL's own iteration rule over the same elements. Writes through mutable iteration are seen by every later read.",
  ["histories", "inputs"], "every placement of the contents in blocks and map, every interleaving of front and back calls, conversion at every point",
  "The tests iterate a few deques forwards and backwards; ends that meet inside a block, on a block boundary or in an empty deque after wrapping are not covered.",
  ["src/deque/iter.rs", "src/deque/mod.rs"], [("block-hopping cursor", "RawIter::next, RawIter::next_back"), ("compat conversion", "RawIter::into_compat, from_compat")],
  ["iterated references", "CompatIter / CompatIterMut memory"])

p("C06", "Queue is first-in first-out",
  "A Queue returns elements in exactly the order in which they were pushed, top shows the element the next pop returns, and both return None exactly when the queue is empty. len, is_empty, iteration, collecting, unwrapping into a deque and consuming by value agree with that order after any history of pushes and pops, including sliding windows of unbounded length.",
  ["histories"], "all sequences of pushes and pops, unbounded streams at every window size",
  "The tests push and pop a few elements; a long-running queue slides its window along and re-centres the block map again and again.",
  ["src/queue.rs", "src/deque/mod.rs"], [("delegation to the deque", "Queue::push, pop, top")],
  ["return values", "iteration order"])

p("C07", "HashMap is an associative map under every history, collisions included",
  "After any sequence of insert, remove, remove_entry, entry, get_mut and clear, lookups return exactly the last value stored for each present key and nothing for absent keys, insert and remove return the previous value, and len counts the present keys. entry(..).or_insert(_with) inserts only into a vacant entry, calls the closure only then, and and_modify runs only on an occupied one. This holds for every hash function, including one that sends every key to the same bucket, before, during and after every growth.",
  ["histories", "inputs", "configurations"], "all operation sequences over all key sets, all hash functions (constant, modular, identity, extreme values), all sizes",
  "The tests insert a few dozen integers with the identity hash; chains longer than two and removal at each chain position across a growth are not reached.",
  ["src/hash_map/mod.rs", "src/hash_map/entry.rs", "src/internal/hash_table/mod.rs", "src/internal/hash_table/entry.rs"],
  [("chain search", "HashTable::find_in_bucket(_mut)"), ("unlink", "HashTable::remove_entry"), ("re-link on growth", "HashTable::rehash"), ("vacant entry", "Entry::or_insert_with")],
  ["return values", "get/contains_key/len for every key"])

p("C08", "HashSet is a set under every history",
  "After any sequence of insert, remove and clear, contains_key and get answer exactly for the keys that are present and len counts them. insert returns true exactly when the key was absent, remove returns the stored key exactly when it was present, and iteration yields each present key once. This holds for every hash function and size.",
  ["histories", "inputs", "configurations"], "all operation sequences over all key sets, all hash functions, all sizes",
  "The only test collects ten keys and iterates.",
  ["src/hash_set/mod.rs", "src/hash_set/iter.rs", "src/internal/hash_table/mod.rs"], [("delegation to the hash table", "HashSet::insert, remove, get")],
  ["return values", "get/contains_key/len for every key", "iteration"])

p("C09", "Hash iterators visit each entry once, also across the C++ boundary",
  "From every state a HashMap or HashSet can reach, iteration yields each entry exactly once and then None for ever, a cloned iterator continues independently from the same point, and writes through mutable iteration are seen by later lookups. A partly consumed iterator converted into a pair of binary-compatible iterators describes exactly the remaining entries under EASTL's own increment and end rules, and a Rust iterator made from such a pair, or from the pair EASTL itself would produce, yields exactly those entries.",
  ["histories", "inputs"], "every reachable bucket arrangement, conversion and cloning at every point of the iteration",
  "The tests round-trip two tables of ten well-spread keys and only count; the chains, the empty buckets around the cursor and EASTL's view of the pair are not examined.",
  ["src/internal/hash_table/iter.rs", "src/hash_map/iter.rs", "src/hash_set/iter.rs"], [("bucket cursor", "RawIter::next, RawIter::next_bucket"), ("compat conversion", "RawIter::into_compat(_mut), from_compat(_mut)")],
  ["iterated entries", "CompatIter / CompatIterMut memory"])

p("C10", "Hash tables keep EASTL's bucket structure and prime growth policy",
  "In every reachable state each entry sits in exactly one bucket, the one given by its hash modulo the bucket count, the bucket array ends in EASTL's sentinel, an unallocated table uses the one-bucket empty array, and the load never exceeds the maximum load factor. Growth happens exactly when EASTL's prime policy says so and to exactly the bucket count it prescribes, for every element count, maximum load factor and growth factor; removal and clear never shrink the table.",
  ["histories", "inputs", "configurations"], "all operation histories; all entries of the prime table; all element counts, load factors and growth factors the C++ side may have set",
  "The tests only see tables of up to a few dozen entries, the first handful of primes, and never the bucket array or a non-default policy.",
  ["src/internal/hash_table/rehash_policy.rs", "src/internal/hash_table/mod.rs"], [("prime policy", "PrimeRehashPolicy::get_rehash_required, PRIMES"), ("rehash and sentinel", "HashTable::rehash")],
  ["raw memory of the table", "sizes requested from the allocator"],
  [("bucket_count, next_resize, element_count", "growth state", "struct HashTable, struct PrimeRehashPolicy")])

p("C11", "VectorMap is a sorted map under every history and comparator",
  "After any sequence of insert, remove, remove_entry, get_mut, entry and clear, a VectorMap holds its entries strictly sorted by its comparator, one per equivalence class of keys under that comparator, each with the last value stored. Lookups, returned values, len and the slice view are exactly those of a sorted reference map, for Less, Greater and any strict weak order, including one that treats unequal keys as equivalent. A vacant entry inserts at the right place and an occupied one shows the stored value.",
  ["histories", "inputs", "configurations"], "all operation sequences over all key sets, all comparators, all constructors",
  "The tests use the default comparator on a few ascending keys; descending and coarse comparators and every insertion position are not covered.",
  ["src/vector_map/mod.rs", "src/vector_map/entry.rs"], [("lower bound by comparator", "VectorMap::lower_bound"), ("insert at lower bound", "VectorMap::insert, VacantEntry::insert")],
  ["return values", "as_ref()/deref slice", "get/contains_key for every key"])

p("C12", "String behaves as a sequence of Unicode characters under every history",
  "After any sequence of construction, assign, push, pop, insert, remove, reserve and clone, a String's content equals that of a reference string of Unicode characters, for every character. assign replaces the content, push and insert store the whole character, pop and remove return the whole character, indices are byte offsets, and remove past the end and pop on an empty string return None and change nothing. Equality, length, formatting and hashing depend on the content only.",
  ["histories", "inputs"], "all operation sequences, all 1 112 064 characters, all character boundaries",
  "The tests use three ASCII letters.",
  ["src/string/mod.rs"], [("UTF-8 encode and decode", "String::insert, pop, remove"), ("assign", "String::assign")],
  ["as_str/as_bytes/len", "return values", "Display, Debug, ==, hash"])

p("C13", "A String that has storage is always NUL-terminated for C++",
  "Whenever a String owns storage, the byte right after its last content byte lies within the allocation and is zero, after every operation of every history, including those that shrink, move, reserve or clone it, so that C++ can read it as a C string at any time. The storage requested always has room for that byte beyond the reported capacity.",
  ["histories", "inputs"], "all operation sequences, from every reachable length and capacity",
  "One test looks at the byte after five operations; removal and reservation, which move the end, are not among them, and fresh heap memory often happens to be zero.",
  ["src/string/mod.rs", "src/string/null_terminator_allocator.rs"], [("terminator write", "String::null_terminate"), ("one extra byte", "NullTerminatorAllocator")],
  ["raw memory after the content", "allocator request log"])

p("C14", "A String's content is always valid UTF-8",
  "After every operation of every history, the bytes of a String are valid UTF-8, whatever characters and byte indices were used. An index inside a multi-byte character is refused by a panic that leaves the content unchanged, never by splitting the character.",
  ["histories", "inputs"], "all operation sequences, all characters, all byte indices including those inside a character",
  "The tests use ASCII only, for which the property cannot fail.",
  ["src/string/mod.rs"], [("boundary checks and whole-character edits", "String::insert, pop, remove")],
  ["as_bytes()"])

p("C15", "List behaves as a doubly-linked sequence with intact links",
  "After any sequence of pushes and pops at either end, extends, clears and writes through mutable iteration, a List holds exactly the elements of a plain sequence in order, and front, back, len, size, emptiness, size hints and iteration agree with it. Walking the links forward and backward from the embedded sentinel visits the same nodes in opposite orders and returns to the sentinel. A node's address never changes while its element is in the list.",
  ["histories"], "all operation sequences, from every reachable length",
  "The tests walk a few short lists forward; backward links and the sentinel are never followed after mixed operations at both ends.",
  ["src/list/mod.rs", "src/list/node.rs", "src/list/iter.rs"], [("link and unlink", "ListNodeBase::insert, ListNodeBase::remove"), ("sentinel", "List::init_sentinel_node")],
  ["return values", "iteration", "raw links"])

p("C16", "FixedList uses its inline nodes first and behaves like List beyond them",
  "A FixedList behaves exactly like a List of the same elements, whatever the mix of inline and overflow nodes. As long as an inline node is free a new element goes into it without touching the overflow allocator, a full pool overflows to that allocator, and a removed element's node goes back where it came from and inline nodes are used again. No two live elements ever share a node; this holds for the stable and for the conformant nightly variant.",
  ["histories", "configurations"], "all operation sequences, all inline capacities, both variants",
  "The tests push a few elements past the capacity once; the free list after mixed removals and re-insertions across the overflow edge is not reached.",
  ["src/fixed_list/mod.rs", "src/fixed_list/conformant.rs", "src/fixed_pool/mod.rs", "src/fixed_pool/with_overflow.rs"], [("bump and free list", "FixedPool allocate/deallocate"), ("overflow routing", "FixedPoolWithOverflow")],
  ["node addresses", "overflow allocator log", "list behaviour"])

p("C17", "FixedVector stays inline until it overflows, and survives moves and clears",
  "A FixedVector behaves exactly like a Vector with the same elements. It stores them in its inline buffer, without touching the overflow allocator, until its length first needs more than the inline capacity or more capacity is reserved, has_overflowed reports exactly that, and clear returns it to the inline buffer. Moving it, inline or overflowed, yields the same elements at the new place, leaves nothing behind in the old one, and drops and frees everything exactly once.",
  ["histories", "configurations"], "all operation sequences with moves and clears at every point, all inline capacities, all element sizes and alignments",
  "The tests do one push, one overflow and two moves with integers, which cannot show a double drop, a stale buffer pointer or a lost buffer.",
  ["src/fixed_vector/mod.rs", "src/fixed_vector/allocator.rs"], [("re-pointing on move", "FixedVector::move_new"), ("pool exemption", "FixedVectorAllocator::deallocate_raw_aligned")],
  ["element addresses", "has_overflowed/max_size", "overflow allocator log", "element registry"])

p("C18", "Map and Set find every key and iterate in order for any valid tree",
  "For every valid red-black tree handed over by C++, a Map or Set finds exactly the keys the tree contains and returns each one's own value, finds nothing for every other key, and reports the right length and emptiness. Shared and mutable iteration yield every entry exactly once in comparator order and then None for ever, and writes through mutable access are seen by later reads. This holds for every comparator and every key and value size and alignment.",
  ["inputs", "configurations"], "all valid red-black trees (shape and colouring), all present keys and all gaps between them, all comparators",
  "The tests build one or two trees of three to seven nodes by hand; successor search climbs a different path for each shape.",
  ["src/internal/rb_tree/mod.rs", "src/internal/rb_tree/node.rs", "src/internal/rb_tree/iter.rs", "src/map/mod.rs", "src/set/mod.rs"], [("binary search", "RBTree::find_in_tree"), ("in-order successor", "Node::next"), ("end anchor", "Iter::next")],
  ["get/get_mut/contains_key for all keys", "iteration", "Debug"])

p("C19", "Clearing or dropping a Map, Set or FixedMap releases each node exactly once",
  "For every valid red-black tree, clearing or dropping the Map or Set drops each key and value once and returns each node to the allocator it came from once, with the size and alignment of a node. After clear the container is empty for every operation and stays safe to use, clear again and drop. A FixedMap returns pool nodes to its pool and overflow nodes to the overflow allocator.",
  ["inputs", "histories"], "all valid red-black trees, all orders of clear and drop, all splits of the nodes between pool and overflow",
  "The tests never drop a populated map with owning keys or values, never clear one, and never look at the allocator.",
  ["src/internal/rb_tree/mod.rs", "src/fixed_map/mod.rs", "src/fixed_pool/mod.rs"], [("post-order release", "RBTree::free_tree, RBTree::clear")],
  ["allocator log", "element registry", "observers after clear"])

p("C20", "Every container returns exactly what it took from its allocator, once",
  "Over the life of any container, every block it obtains from its allocator is given back exactly once, with the size and alignment it was requested with, and nothing else is ever given back; after the container and everything made from it is gone, no block is outstanding. Blocks are never written outside their bounds, read before being written, or used after they were given back, and no request is of zero size.",
  ["histories"], "all operation histories of all containers, abandoned at every point",
  "The tests use the process allocator, which hides wrong sizes, leaks and small overruns.",
  ["src/vector/mod.rs", "src/deque/mod.rs", "src/internal/hash_table/mod.rs", "src/list/mod.rs", "src/internal/rb_tree/mod.rs", "src/string/null_terminator_allocator.rs", "src/fixed_pool/with_overflow.rs", "src/fixed_vector/allocator.rs"],
  [("explicit allocate and deallocate pairs", "every container's clear/drop/reallocation")],
  ["request and release log of an instrumented allocator", "red zones and fill patterns around blocks"])

p("C21", "Every element is dropped exactly once and never used after",
  "Every element moved or cloned into any container is, after any history, either still in the container, handed out to the caller, or dropped, and never two of these; when the container is gone each element has been dropped exactly once or was handed out. Overwritten, removed, cleared and abandoned elements are dropped by the operation that discards them, and no operation reads or drops a slot that holds no element.",
  ["histories"], "all operation histories of all containers, abandoned at every point",
  "The tests mostly store plain integers, whose double drop or leak cannot be seen.",
  ["src/vector/mod.rs", "src/vector/into_iter.rs", "src/deque/mod.rs", "src/internal/hash_table/mod.rs", "src/list/mod.rs", "src/internal/rb_tree/mod.rs", "src/fixed_vector/mod.rs", "src/vector_map/mod.rs"],
  [("drop_in_place and ptr::read pairs", "every container's removal, clear and drop")],
  ["registry of every element ever created"])

p("C22", "A panic in caller-supplied code never corrupts a container",
  "If an element's clone, a comparison, equality or hash of the argument key, a closure, or a source iterator panics at any point of any operation, no element is dropped twice or left readable after its drop or before its initialisation, and the container can afterwards be read, used, cleared and dropped safely. Operations that had not yet changed anything leave the content as it was; a failed append or assign leaves elements that are all properly initialised; nothing is freed twice.",
  ["fault_sequences", "histories"], "every operation that calls caller-supplied code, from every reachable small state, with the panic at every such call",
  "No test makes caller-supplied code panic.",
  ["src/vector/mod.rs", "src/vector_map/mod.rs", "src/internal/hash_table/mod.rs", "src/internal/hash_table/entry.rs", "src/deque/mod.rs"],
  [("length updated element by element", "Vector::append"), ("callbacks before mutation", "HashTable::insert, entry; VectorMap::insert")],
  ["element and allocator registries after catch_unwind", "content after the panic"])

p("C23", "Default hash values equal EASTL's for every input",
  "The default hash of every integer and bool is its value converted to the pointer-sized unsigned type as C++ converts it (sign-extended, wrapping), and of every float within that type's range its truncation toward zero. Every string form (slice, reference, the crate's own string, C string) hashes to 32-bit FNV-1 of its bytes exactly as EASTL computes it, whatever the bytes before its terminator, so that a table filled by either language is found by the other.",
  ["inputs"], "all values of every supported type; all byte strings",
  "There is no test of hash values other than through small tables, where any function would do.",
  ["src/hash.rs", "src/string/mod.rs"], [("value conversion", "impl Hash<..> for DefaultHash<..>"), ("FNV-1", "fnv1")],
  ["Hash::hash"])

p("C24", "Raw memory of a container decodes under EASTL's layout to its content",
  "In every state reached through the safe interface, reading a container's raw bytes with EASTL's documented layout (pointer triples of vectors and strings, block map and iterator pairs of deques, bucket array and node chains of hash containers, sentinel and links of lists, inline buffers of fixed containers) yields exactly the same content, order and sizes that the safe interface reports. Containers therefore mean the same on both sides of the language boundary at every moment between operations.",
  ["histories", "inputs"], "all operation histories of all containers, all element sizes and alignments",
  "The layout tests compare field offsets of one type each; they never decode the memory of a populated container.",
  ["src/vector/mod.rs", "src/string/mod.rs", "src/deque/mod.rs", "src/internal/hash_table/mod.rs", "src/internal/hash_table/node.rs", "src/list/mod.rs", "src/list/node.rs", "src/fixed_vector/mod.rs", "src/fixed_list/mod.rs", "src/vector_map/mod.rs"],
  [("repr(C) structures", "every container's struct")],
  ["raw memory of the container and its blocks"])

p("C25", "The default allocator serves every request exactly and pairs its releases",
  "For every non-zero size and every power-of-two alignment, the default allocator obtains from the process a block of exactly that size and at least that alignment and returns it intact, and releases it with the same size and alignment; typed requests ask for count times element size at the element's alignment. A zero-sized request is refused by a panic, and a request that cannot be represented or served never yields a usable-looking pointer.",
  ["inputs", "histories"], "all sizes, counts, alignments and element types around every boundary; all interleavings of a few requests and releases",
  "No test calls the allocator directly.",
  ["src/allocator.rs"], [("layout computation", "DefaultAllocator::allocate_raw_aligned"), ("typed wrappers", "Allocator::allocate, deallocate")],
  ["the process-wide allocator beneath it"])

p("C26", "The fixed pool hands out distinct aligned nodes and takes each back",
  "Initialised with any memory block, however misaligned or short, the pool hands out exactly as many nodes as fit after alignment, each aligned, inside the block and disjoint from all other live nodes, and then reports that it cannot allocate. A returned node is handed out again before fresh memory, and with overflow enabled exactly the nodes that lie outside the pool go to and from the overflow allocator, also when such a node is adjacent to the pool.",
  ["histories", "inputs", "configurations"], "all allocate/release sequences, all block sizes and misalignments, several node sizes and alignments",
  "The tests allocate and free two nodes of an aligned block.",
  ["src/fixed_pool/mod.rs", "src/fixed_pool/with_overflow.rs"], [("bump pointer and free list", "FixedPool"), ("range test", "FixedPoolWithOverflow::deallocate_raw_aligned")],
  ["returned addresses", "can_allocate", "overflow allocator log"], hook="cfg eastl_rs_verif re-exports the private pool types")

p("C27", "A capacity that cannot be represented is refused, never wrapped around",
  "A request for capacity whose byte size does not fit the address space, made through any constructor or reservation of any container, at any current length, ends in a panic or abort before any storage is replaced; it never yields storage smaller than the capacity reported. After such a panic the container's content and capacity are unchanged. Requests that do fit ask the allocator for exactly the bytes the capacity needs.",
  ["inputs", "histories"], "all requested capacities around every power-of-two and overflow boundary, all element sizes, all current states",
  "The tests reserve small numbers only, and run with overflow checks that release builds do not have.",
  ["src/allocator.rs", "src/vector/mod.rs", "src/string/mod.rs", "src/string/null_terminator_allocator.rs"], [("checked arithmetic", "Allocator::allocate, Vector::reserve, String::reserve")],
  ["allocator request log", "capacity() and content after the refusal"])

p("C28", "Containers use only the hash, equality and comparator they are given",
  "Lookups, insertions and removals of hash containers decide key identity by the container's own equality function within the bucket chosen by its own hash function, and ordered containers by their own comparator, never by the key type's built-in equality or order. With an equality coarser or finer than the key's own, a reversed or a keyed comparator, every operation agrees with a reference container parameterised by the same functions.",
  ["histories", "configurations"], "all operation sequences over small key sets, all combinations of hash, equality and comparator that respect one another",
  "The tests use the default functions almost everywhere, with which the built-in operators coincide.",
  ["src/internal/hash_table/mod.rs", "src/vector_map/mod.rs", "src/internal/rb_tree/mod.rs", "src/equals.rs", "src/compare.rs"], [("static dispatch to H, E and C", "HashTable::find_in_bucket, VectorMap::lower_bound, RBTree::find_in_tree")],
  ["return values", "lookups for every key"])

p("C29", "Readers never write; containers cross threads only as their content may",
  "No operation that takes a container by shared reference (lookups, lengths, comparisons, hashing, formatting, cloning, iteration) writes to the container, its storage or its elements, so any number of readers may run one at the same time in any order, and each sees what it would have seen alone, wherever in the course of another reader it runs. A container or iterator may be sent to or shared with another thread by a safe program only if all its elements and its allocator, functions and borrows allow that; and vectors, fixed vectors, strings, deques, queues, hash maps and sets, vector maps and maps may be whenever all their contents may.",
  ["histories", "schedules", "configurations"], "every reachable state of every container within small sizes and several large ones, every pair of readers with a switch at every step, every combination of contents that may be sent, shared, both or neither",
  "The tests are single-threaded and compare values, which a reader that reorders a chain or caches a result leaves intact.",
  ["src/vector/mod.rs", "src/deque/mod.rs", "src/internal/hash_table/mod.rs", "src/internal/rb_tree/mod.rs", "src/list/mod.rs", "src/string/mod.rs", "src/vector_map/mod.rs"], [("reads through &self", "HashTable::find_in_bucket, RBTree::find_in_tree, the iterators"), ("conditions on Send and Sync", "unsafe impl Send/Sync for each container")],
  ["writes to protected memory", "results of readers alone and interleaved", "auto traits of every instantiation"])

p("C30", "Safe programs cannot keep a borrow beyond a change of the container",
  "A reference, iterator or entry that safe code obtained from a container is tied to a borrow of that container: a program is rejected by the compiler if it uses one after the container was changed, moved, replaced or dropped, uses an exclusive one together with any other, obtains an exclusive one from a shared container, changes a key or an element through something that only shows it, or puts an element into a container that outlives what the element borrows. A program in which borrows do not overlap is accepted.",
  ["programs"], "every program of a lend, a second call or an escape, and a use, for every lending and every changing method of every container",
  "Tests are programs that were accepted; the property is also about those that must be rejected.",
  ["src/deque/mod.rs", "src/deque/iter.rs", "src/queue.rs", "src/list/mod.rs", "src/hash_map/mod.rs", "src/vector_map/entry.rs", "src/vector/mod.rs"], [("lifetimes in signatures", "Deque::iter, Deque::iter_mut, Queue::iter, List::iter_mut, HashMap::entry, the iterators' variance")], ["the compiler's verdict on each program"])

p("C31", "Containers handed over by C++ work whatever valid representation they are in",
  "A container that EASTL built (a vector of any length and capacity, a fixed vector inline or in any other storage, a deque or queue whose map has any number of slots with any part of it in use and anything in the others, a hash table of any bucket count, load and growth factors, resize threshold and chain order, also one on C++'s own shared empty bucket array, a vector map in any capacity, any valid red-black tree) shows exactly its content and behaves like one that was built here: after any operations on it and its drop, contents, order, growth by EASTL's rules, layout, element drops and releases are as the other properties say.",
  ["histories", "configurations"], "every representation within bounds, each followed by every history of operations within bounds and the drop",
  "Tests build containers through this crate only, which reaches few of the representations that C++ makes.",
  ["src/deque/mod.rs", "src/queue.rs", "src/vector/mod.rs", "src/fixed_vector/mod.rs", "src/internal/hash_table/mod.rs", "src/internal/hash_table/rehash_policy.rs", "src/vector_map/mod.rs", "src/map/mod.rs", "src/set/mod.rs"],
  [("reading what is there", "Deque::realloc_ptr_array and Drop, HashTable::free_buckets, bucket_index, rehash and PrimeRehashPolicy::get_rehash_required, Vector::drop, FixedVectorAllocator")],
  ["content and order", "growth and layout", "releases and drops"])

p("C32", "Functions that contradict themselves cost answers, never memory or entries",
  "Hash, equality and comparison functions, and the operators of key types, are the caller's and may contradict themselves from one call to the next; element sources may announce any number of elements and go on after their end; a text may be another one at each look. Whatever they answer, every operation of maps, sets and vector maps ends and acts on at most one entry, the one it reports: none is lost, doubled, dropped twice or leaked, and the length is what iteration yields. A container made of a source holds exactly what came before the source's first end, and a string exactly one of the texts, followed by NUL. Refusing to go on by a panic is allowed if it is as sound.",
  ["histories", "inputs"], "all operation sequences within bounds with all sequences of answers the functions may give, all tree shapes within bounds with all paths down, all kinds of wrong hints",
  "Tests use lawful functions and exact sources, for which shortcuts that trust them are invisible.",
  ["src/internal/hash_table/mod.rs", "src/internal/rb_tree/mod.rs", "src/vector_map/mod.rs", "src/vector/mod.rs", "src/deque/mod.rs", "src/list/mod.rs", "src/string/mod.rs"],
  [("no unsafe code relies on an answer", "HashTable::insert_impl, rehash and remove_entry, RBTree::find_in_tree, VectorMap::lower_bound, Vector::from_iter, List::extend, String::assign")],
  ["what each operation reports", "entries, length and drops after it"])

p("C33", "A destructor that panics never corrupts a container",
  "If the destructor of an element, key or value panics while a container is cleared, assigned, filled, emptied element by element or dropped, no element is dropped a second time and none is shown or reached after its destructor ran, nothing is freed twice or used after its release, and the container that remains shows as many elements as its length says and can be used, cleared and dropped. What the operation had still to drop or free may be leaked.",
  ["fault_sequences", "histories"], "every operation from every small state and a set of large ones, with the panic in every destructor it runs, and every operation after it",
  "No test has a destructor that panics.",
  ["src/vector/mod.rs", "src/list/mod.rs", "src/internal/hash_table/mod.rs", "src/internal/rb_tree/mod.rs", "src/deque/mod.rs", "src/fixed_vector/mod.rs"],
  [("elements leave the container before their destructors run", "Vector::clear and assign, List::clear, HashTable::free_bucket, RBTree::clear")],
  ["element and allocator registries after catch_unwind", "content and length after the panic"])

p("C34", "An allocator that panics never corrupts a container",
  "If the allocator panics instead of serving a request, whichever request and whichever operation it is (insertion, growth, reservation, assignment, extension, cloning or construction), no element is dropped twice, shown before it exists or reached after its destructor ran, nothing is freed that was not handed out or freed twice, and the container that remains is consistent: its content is what it was, for operations on several elements with some of the new ones in order behind it, its length is what iteration yields, and a string is still whole characters followed by NUL. It can be used, cleared and dropped. Elements and blocks in transit may be leaked.",
  ["fault_sequences", "histories"], "every operation from every small state and a set of large ones, with the panic at every request it makes, and every operation after it",
  "No test has an allocator that panics.",
  ["src/internal/hash_table/mod.rs", "src/deque/mod.rs", "src/string/mod.rs", "src/vector/mod.rs", "src/list/mod.rs", "src/vector_map/mod.rs"],
  [("memory is asked for before the container changes", "HashTable::insert_impl, Deque::init and push_back, String::insert, Vector::reserve, List::push_back")],
  ["element and allocator registries after catch_unwind", "content and length after the panic"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
