#!/usr/bin/env python3
"""Source of truth for /verif/properties.jsonl (run it to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

V="src/vector/mod.rs"; VI="src/vector/into_iter.rs"; D="src/deque/mod.rs"; DI="src/deque/iter.rs"
L="src/list/mod.rs"; LN="src/list/node.rs"; LI="src/list/iter.rs"; H="src/internal/hash_table/mod.rs"
HI="src/internal/hash_table/iter.rs"; HE="src/internal/hash_table/entry.rs"; HP="src/internal/hash_table/rehash_policy.rs"
R="src/internal/rb_tree/mod.rs"; RN="src/internal/rb_tree/node.rs"; S="src/string/mod.rs"; SA="src/string/null_terminator_allocator.rs"
FP="src/fixed_pool/mod.rs"; FO="src/fixed_pool/with_overflow.rs"; FV="src/fixed_vector/mod.rs"; FVA="src/fixed_vector/allocator.rs"
FL="src/fixed_list/mod.rs"; FM="src/fixed_map/mod.rs"; A="src/allocator.rs"; VM="src/vector_map/mod.rs"; VME="src/vector_map/entry.rs"
HM="src/hash_map/mod.rs"; HS="src/hash_set/mod.rs"; Q="src/queue.rs"; HA="src/hash.rs"

p("C01","Memory goes back to the allocator exactly as it was requested",
  "Every block a container or a forwarding allocator returns to its allocator is returned with the same byte size and the same alignment with which that block was obtained. This holds for every container, every element type and every sequence of operations.",
  ["programs","histories","inputs"],"all element types, allocators and operation sequences of every container",
  "The default allocator's backend tolerates a wrong layout, so the tests pass even when the size is wrong; only a handful of types and sizes are tried.",
  [A,V,VI,D,L,H,R,FO,FVA,SA],
  [("Vector: deallocate(begin, capacity)",V),("Deque: free_subarray / free_ptr_array",D),("List node deallocate",L),("HashTable node and bucket array deallocate",H),("NullTerminatorAllocator n+1 on both sides",SA)],
  observe=["every call of Allocator::allocate*/deallocate*"])
p("C02","Every allocated block is released exactly once",
  "A container gives back every block it obtained from its allocator: when growing or rehashing supersedes it, when removing elements empties it, or at the latest when the container or its consuming iterator is dropped. No block is given back twice, no block that was not obtained from the allocator is given back, and no block is used after it was given back.",
  ["programs","histories"],"all operation sequences on every owning container",
  "A leak is invisible to every assertion in the tests, and double frees need histories (grow, clear, drop) the tests do not run under a checking allocator.",
  [V,VI,D,L,H,R],
  [("Vector::reserve releases the old buffer; clear/Drop release the last",V),("Deque pop_* release an emptied sub-array, Drop releases the rest",D),("HashTable::rehash and Drop release nodes and bucket arrays",H),("RBTree::free_nodes forgets the freed nodes",R)])
p("C03","Every stored element is dropped or moved out exactly once",
  "An element stored in a container is either handed to the caller exactly once by a removing or consuming operation, or dropped exactly once when it is replaced, cleared, or the container or consuming iterator is dropped. No operation forgets an element it discards, keeps a second live copy of one it handed out, or drops one twice.",
  ["programs","histories"],"all element types with a destructor and all operation sequences",
  "The drop tests cover two elements and one history per container; replaced, shifted and surplus elements are never counted.",
  [V,VI,D,L,H,R,VM],
  [("ptr::read paired with shrinking the live range",V),("drop_in_place over exactly the live range",V),("node value read or dropped before its block is released",L),("mem::replace of the old value",H)])
p("C04","Storage without a live element is never read, dropped or assigned through",
  "A container only ever reads, compares, clones from, drops, or exposes a reference to a slot that currently holds a live element; spare or freshly allocated storage is filled only by writes that do not look at the old contents.",
  ["programs","histories","inputs"],"all element types, capacities and operation sequences",
  "With integer elements (all the tests use) assigning through uninitialised memory has no visible effect.",
  [V,VI,D,L,H],
  [("slices are built over begin..len only",V),("new elements are placed with ptr::write",V),("nodes are written before they are linked",H)])
p("C05","A panic in user code leaves every container safe to drop",
  "If user-supplied code (element Clone or Drop, hashing, equality or ordering functors, closures, input iterators) panics during a container operation, the container can still be used and dropped without dropping any element twice, touching uninitialised storage or touching released memory.",
  ["programs","fault_sequences"],"a panic at every call into user code inside every operation",
  "No test makes user code panic; the faulty window is between two bookkeeping statements.",
  [V,L,H,D,HE],
  [("length is published after the elements are initialised",V),("clear forgets elements before dropping them",V),("nodes are unlinked before their value is dropped",L)])
p("C06","Safe API never hands out aliasing or dangling references",
  "Through safe functions, a reference or iterator obtained from a container cannot outlive the borrow of the container it came from, mutable access to elements is only given in exchange for exclusive access to the container, and a mutable iterator cannot be duplicated. Every safe program that could observe a freed or concurrently mutated element is rejected by the compiler.",
  ["programs"],"all safe client programs",
  "Tests are programs that compile; the property is about programs that must not.",
  [D,DI,Q,L,LI,HI,HM,FL,"src/fixed_list/conformant.rs",V,VM,VME,HE],
  [("lifetimes in signatures of iter/iter_mut/front/back/get/entry",D),("absence of Clone on mutable iterators",HI),("&mut self receivers",L)])
p("C07","Keys stored in a map or set cannot be modified through safe API",
  "No safe function, iterator, entry or trait implementation of a map or set gives mutable access to a stored key, so the order or bucket position computed for a key stays valid for as long as it is stored.",
  ["programs"],"all safe client programs over every map and set",
  "A test cannot show that no API path exists.",
  [HM,HS,VM,VME,HE,HI,"src/map/mod.rs","src/set/mod.rs",FM],
  [("(&K, &mut V) items, &V-only entries, no DerefMut on ordered storage",VME)])
p("C08","Containers cross threads only when their contents may",
  "A container, iterator or entry type can be sent to another thread (shared between threads) only if every element, key, value, functor and allocator value it owns or borrows may be sent (shared). No combination of type arguments makes a type Send or Sync when one of the parts it holds is not.",
  ["programs"],"all instantiations of every public type with thread-unsafe arguments",
  "The unsafe impls are never exercised by a test with a non-Send argument, and a test cannot assert non-implementation for all types.",
  [V,D,Q,H,HM,HS,"src/map/mod.rs",VM,S,FVA],
  [("bounds on unsafe impl Send/Sync",V)])
p("C09","Types keep the memory layout of their EASTL counterparts",
  "Each binary-compatible type has a C layout, and its fields sit at the offsets, with the sizes and in the order, of the EASTL type it mirrors, for every element, key, value and allocator type.",
  ["programs","configurations"],"all instantiations of every binary-compatible type (x86-64)",
  "Layout tests exist for some containers at u32 only; nodes, compatibility iterators, rehash policy, wrappers and fixed vectors have none, and a repr attribute cannot be tested.",
  [V,D,DI,L,LN,H,"src/internal/hash_table/node.rs",HI,HP,R,RN,S,FP,FO,FV,FVA,FL,FM,"src/map/mod.rs","src/set/mod.rs",VM,Q,HM,HS,"src/compare.rs",A],
  [("#[repr(C)] and field order",V)])
p("C10","Strings are always null-terminated",
  "Whenever a string owns a buffer, the byte right after its last character is zero and inside the buffer, after every operation, including reserving, removing, cloning and constructing with a capacity.",
  ["histories","inputs"],"all operation sequences on a string",
  "The one terminator test covers five operations on one short string; freshly allocated memory is often zero by luck.",
  [S,SA],
  [("null_terminate after every mutation",S),("one extra byte in every allocation, zeroed",SA)])
p("C11","A string built through safe API is always valid UTF-8",
  "The bytes of a string are always valid UTF-8 whatever characters and string slices are pushed, inserted, assigned, popped or removed: characters are stored in their encoded form and removed whole.",
  ["inputs","histories"],"all characters, string slices and operation sequences",
  "All string tests use ASCII.",
  [S],[("bytes come from str slices or char encoding",S)])
p("C12","No element access outside a buffer's live or reserved range",
  "Every element is written inside the allocated capacity and read inside the current length: appending grows a full container first, inserting and removing by index reject an index out of range before touching memory, and iterators stop at the end of the range they were created for.",
  ["inputs","histories"],"all lengths, capacities, indices and operation sequences",
  "Boundary cases (full, empty, index equal to length) are tried for a few fixed sizes only; an off-by-one write into allocator slack is silent.",
  [V,VI,D,DI,LI,HI,VM],
  [("is_full before write at end",V),("index tests before pointer arithmetic",V),("cursor == end before dereference",DI)])
p("C13","Capacity arithmetic never yields an undersized block",
  "A request whose element count or byte size does not fit the address range ends in a panic, in release builds too; it never wraps around into a block smaller than the capacity the container records.",
  ["inputs","configurations"],"all requested capacities, all element sizes, debug and release builds",
  "Tests run in debug builds with tiny capacities.",
  [A,V,SA],[("size computation in Allocator::allocate",A),("capacity computation in Vector::reserve/grow",V)])
p("C14","A failed allocation is never used as storage",
  "When an allocator cannot provide memory, no container writes to or records the null result as storage: the failure is reported or reaches the caller, never dereferenced.",
  ["fault_sequences"],"failure of any single allocation",
  "No test makes an allocation fail except on the pool itself.",
  [A,SA,FP,FO,L],[("null test in the default allocator",A),("null test in pool overflow",FO)])
p("C15","The element count changes exactly with the contents",
  "The stored element count of a list, hash table or tree grows by one exactly when a new element is linked in, shrinks by one exactly when an element is unlinked, is zero after clear, and is untouched by every operation that adds or removes nothing. The remaining count an iterator keeps equals the number of elements it will still yield.",
  ["histories","inputs"],"all operation sequences, present and absent keys",
  "Tests check the count after a few short histories; replaced keys, failed removals and reuse after clear are not.",
  [L,H,R],[("size/element_count updates next to link and unlink",H)],
  state=[("element count","number of linked elements",L)])
p("C16","Every hash table operation agrees on where a key lives",
  "Insertion, lookup, removal, entry access and rehashing all find a key in the bucket given by the table's hash functor modulo the bucket count in force, and all recognise it with the table's equality functor; no bucket position computed before a rehash is used after it.",
  ["histories","inputs","programs"],"all keys, custom hash and equality functors, and operation sequences that rehash",
  "All tests but one use the default functors, and a stale position only matters when an insertion happens to trigger a rehash.",
  [H,HE],[("bucket_index / bucket_for_key",H),("find_in_bucket via the equality functor",H),("target bucket recomputed after rehash",H)])
p("C17","Bucket arrays carry the end sentinel; the shared empty one is immutable",
  "Every bucket array a hash table uses has one extra last entry holding the all-ones end sentinel, and every other entry of a new array is null; the shared empty bucket array used by empty tables is never written to and never released.",
  ["histories"],"all operation sequences, including on never-filled tables",
  "Only two states are checked; a write to or release of the static array needs a rare history.",
  [H],[("rehash fills the new array and sets the sentinel",H),("EMPTY_BUCKET_ARR",H),("bucket_count > 1 guards",H)])
p("C18","List links stay symmetric around insertion and removal",
  "After every list operation each node's successor names it as predecessor and each node's predecessor names it as successor, the sentinel closing the ring; a removed node is reachable from no other node.",
  ["histories"],"all operation sequences and positions",
  "Tests walk short lists forwards only; a wrong backward link is seen only by later backward removals.",
  [L,LN],[("ListNodeBase::insert / remove, init_sentinel_node",LN)])
p("C19","Clearing and dropping need no stack proportional to the contents",
  "No container operation, in particular clearing and dropping, recurses to a depth that grows with the number of stored elements; only the height-bounded traversal of a balanced tree may recurse.",
  ["inputs","histories"],"all element counts and all collision patterns",
  "Collision tests use 11 elements; overflow needs many thousands.",
  [H,R,L,D,V],[("iterative teardown",H)])
p("C20","Fixed containers refer only to their own in-place buffer",
  "A fixed container's internal pointers designate its own in-place buffer (or overflow storage) from construction and after every move, the buffer is never released through the overflow allocator, and the pool hands back to itself exactly the addresses inside the pool's own range.",
  ["histories","inputs"],"construction, moves in overflowed and non-overflowed state, and every pool address including the boundary",
  "The move tests drop nothing afterwards and no test puts a block right at the pool's end.",
  [FV,FVA,FP,FO,FL,FM],[("init_base_vec / MoveNew::move_new",FV),("pool_begin comparison",FVA),("range test in deallocate",FO)])
p("C21","Default hashes depend only on the key's value",
  "Under the default hash, keys that compare equal hash equally: the result depends only on the value (for strings, the characters), never on an address, a bit pattern that equal values may not share, or mutable state, and all string-like key types hash the same text to the same value.",
  ["inputs"],"all keys of every built-in key type",
  "Tests hash three literals; equal-but-distinct representations (owned and borrowed text, 0.0 and -0.0) are not compared.",
  [HA,S],[("DefaultHash implementations",HA)])
p("C22","Hash tables grow along the fixed prime table and never shrink below need",
  "Every bucket count a table grows to is taken from a fixed ascending table of primes that ends in a duplicated largest prime, is at least the number of elements that must fit, and at least the grown previous count.",
  ["inputs","histories"],"all element and bucket counts",
  "Tests reach only the first few primes.",
  [HP],[("PRIMES and lower_bound",HP)])
p("C23","Sorted storage is only modified at the position found for the key",
  "An ordered vector map changes its storage only by inserting at the position its own comparator's lower bound gives for that same key, or by removing the entry found there; no other code path, conversion or constructor can place, reorder or bulk-load entries unsorted.",
  ["programs","histories"],"all construction paths, comparators and operation sequences",
  "Tests use one comparator and ascending or two-element inputs for most constructors.",
  [VM,VME],[("lower_bound gate in insert/entry/remove_entry",VM)])
p("C24","Entry callbacks run only in the state they are for",
  "The default-producing callback of a map entry runs only when the key is absent and at most once, the modifying callback runs only when the key is present, and a present value is never replaced by a default.",
  ["inputs","histories"],"present and absent keys",
  "One history per method is tried.",
  [HE,"src/hash_map/entry.rs",VME],[("match on Occupied/Vacant",HE)])
p("C25","Wrapper types forward to the matching operation",
  "Queues, maps, sets and fixed lists that wrap another container perform on it exactly the operation their name and documentation promise: a queue adds at one end and removes and peeks at the other, a set's insert reports success exactly when the key was new, size and emptiness come from the same count, and each clear, get, contains, insert and remove reaches its counterpart.",
  ["inputs","histories"],"all inputs to every wrapper method",
  "Several wrapper methods (set insert result, contains, remove_entry, in-place access) are not called by any test.",
  [Q,HM,HS,"src/map/mod.rs","src/set/mod.rs","src/fixed_list/conformant.rs",VM],
  [("one-line delegations",HM)])
p("C26","Safe functions never dereference caller-chosen raw pointers",
  "No safe public function dereferences, or passes to an unsafe operation, a raw pointer whose value the caller chooses; every function that must trust such a pointer is marked unsafe.",
  ["programs","inputs"],"all safe client programs",
  "Tests only pass valid pointers.",
  [HA,DI,HI,FVA],[("unsafe fn markers on from_compat and friends",HI)])
p("C30","Sequence operations agree with the obvious sequence model",
  "For every history, the sequence of elements seen by iterating, indexing, popping from either end and draining a vector, deque, queue, list or fixed container equals that of a plain sequence subjected to the same operations.",
  ["histories","inputs"],"all histories",
  "Tests sample a few histories.",
  [V,D,L,Q],[("whole implementation",V)])
p("C31","Map and set operations agree with the obvious map model",
  "For every history of insertions, replacements, removals and clears, lookups and iteration on a hash map, hash set or vector map return exactly the live entries with their latest values, each once; lookups in a tree map or set built by the C++ library find exactly the keys it holds. Which keys are the same and in which order they stand is decided by the container's own hash, equality and comparison functors alone, never by other operators of the key type.",
  ["histories","inputs"],"all histories",
  "Tests sample a few histories.",
  [H,HM,HS,VM],[("whole implementation",H)])
p("C32","Hash values and growth figures equal EASTL's bit for bit",
  "The hash of each built-in key type, the bucket count chosen at each size and the number of elements a deque keeps per sub-array for each element size equal those the C++ library computes, so a structure can be shared across the language boundary.",
  ["inputs"],"all keys, element sizes and counts",
  "Three string hashes are compared.",
  [HA,HP,D],[("fnv1",HA),("prime table",HP),("calculate_subarray_size",D)])
p("C33","Red-black tree traversal visits every entry once in ascending order",
  "Iterating a well-formed tree laid out by the C++ library yields every entry exactly once in comparator order and terminates.",
  ["inputs"],"all well-formed trees",
  "No tree with nodes is ever traversed by a test.",
  [R,RN,"src/internal/rb_tree/iter.rs"],[("Node::next",RN)])
p("C34","Iterators exchanged with C++ designate the same elements",
  "Converting an iterator to its C++ form yields the begin and end positions the C++ container itself would give for the elements left to visit, and building an iterator from the C++ begin and end positions of a container yields an iterator over exactly the elements between them.",
  ["inputs","histories"],"all containers and all iterator positions",
  "Tests only convert a Rust iterator there and back, which two matching mistakes survive.",
  ["src/internal/hash_table/iter.rs","src/hash_set/iter.rs","src/deque/iter.rs"],[("RawIter::into_compat / from_compat","src/internal/hash_table/iter.rs"),("RawIter::into_compat / from_compat","src/deque/iter.rs")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
