C = RT + "container/"
prop("C01", "A hash map behaves as a map under every history of insert, find and erase",
  "After any sequence of insertions, lookups, erasures and moves, a HashMap holds exactly the keys inserted and not erased since, each lookup finds a key exactly when it is held and yields the item stored for it, and the item count agrees. This holds whatever the (sufficiently spread) hash function, starting size and collision pattern, including across growth and when buckets chain through long runs of used cells. Every stored item is destroyed exactly once.",
  ["histories", "inputs"], "every operation sequence over a few keys up to a depth, for several hash functions, starting sizes, prefill patterns and chain-gap layouts",
  "TestHashMap inserts a few random keys into a few maps; the leapfrog links' wrap-around, maximal-delta and shuffle-on-erase cases depend on particular histories it never builds.",
  [C + "HashMap.cpp", C + "HashMap.h"],
  [("leapfrog probing links and linear probing", C + "HashMap.cpp:insertOrFind"), ("link repair on erase", C + "HashMap.cpp:erase"), ("growth by migration", C + "HashMap.cpp:migrateToNewTable")],
  level="model_checking", tech=EXH, note=TRUST + " Hash functions that pile more than 128 keys on one cell are out of scope (documented limit).",
  rule="one execution per choice sequence (hash function, start size, prefill, operation per step), compared with std::map after every step; states = distinct map contents reached, transitions = operations",
  parts=[part("h_hashmap")])

prop("C02", "A B-tree is a sorted multimap with stable order of equal keys",
  "After any sequence of insertions and erasures a BTree iterates its items in key order, contains exactly the items inserted and not erased, and items with equal keys appear in the order they were inserted. Finding the first item greater or equal to a key, or the last item less than it, gives the position the sorted sequence defines. Removed and remaining items are destroyed exactly once.",
  ["histories", "inputs"], "every insertion order of small multisets, every erase order, trees of up to several levels",
  "TestBTree uses random sequences only; node splits, merges and borrows at each position need specific shapes.",
  [C + "BTree.h"], [("splitting on insertion", C + "BTree.h:insert"), ("merging on erase", C + "BTree.h:erase")])

prop("C03", "Arrays hold the values put in them and manage object lifetimes exactly",
  "For every sequence of appends, insertions, erasures, resizes, copies, moves, concatenations and assignments, an Array or FixedArray holds exactly the sequence of values the operations define. Every element is constructed once before use and destroyed exactly once, and no memory outside the live elements is touched, including when an argument refers into the array itself where the interface allows it.",
  ["histories"], "every operation sequence on one to three arrays up to a depth, with elements that own resources",
  "TestArray runs single operations on fixed arrays; combinations with reallocation boundaries and object lifetimes are not enumerated.",
  [C + "Array.h", C + "details/BaseArray.cpp", C + "FixedArray.h", C + "ArrayView.h"], [("growth", C + "details/BaseArray.cpp:reserve"), ("element shifting", C + "Array.h:insert")])

prop("C04", "Sequences keep their items, in order, across chunk boundaries",
  "A Sequence behaves as the list of items its operations define: appending, popping, truncating, moving, converting to an array and iterating in either direction give the values and counts of that list, wherever chunk boundaries fall, and a string taken from a block list between any two positions holds exactly the bytes between them. Weak references and iterators obtained before an append still designate the same item after it, and every item is destroyed exactly once.",
  ["histories"], "every sequence of operations up to a depth with item sizes that put chunk boundaries everywhere",
  "TestSequence appends Fibonacci numbers and reads them once; truncation, popping and boundary alignment are not combined.",
  [C + "Sequence.h", C + "Sequence.cpp", C + "BlockList.h", C + "BlockList.cpp"], [("chunk append and footer list", C + "BlockList.cpp:appendBlock"), ("truncate", C + "Sequence.cpp:truncate")])

prop("C05", "A pool gives out distinct live slots and keeps items where they are",
  "Items allocated from a Pool and not freed keep their index and their value whatever is allocated or freed afterwards, no two live items share an index, and enumerating the pool visits exactly the live items. Freed slots are reused only after being freed and every item is destroyed exactly once.",
  ["histories"], "every allocate/free sequence up to a depth, across growth",
  "No existing test covers Pool.",
  [C + "Pool.h", C + "Pool.cpp", C + "BigPool.h", C + "BigPool.cpp"], [("free list of slots", C + "Pool.h")])

prop("C06", "The heap never hands out overlapping blocks and preserves their contents",
  "Every block returned by the heap is suitably aligned, at least as large as asked, and disjoint from every other live block, after any sequence of allocations, aligned allocations, reallocations and frees. Contents survive reallocation up to the smaller size and no operation changes the contents of another block.",
  ["histories"], "every sequence of heap operations up to a depth over sizes around the allocator's bin and chunk boundaries",
  "Tests use the heap only incidentally; allocator state depends on the exact history of sizes.",
  [RT + "memory/impl/Heap_DL.cpp", RT + "memory/Heap.h", RT + "memory/impl/Heap_DL.h"], [("Doug Lea allocator bins, tree bins, top and designated victim", RT + "memory/impl/Heap_DL.cpp")])

prop("C07", "Owning handles destroy what they own exactly once",
  "For every sequence of constructions, copies, moves, assignments, releases and resets of Owned, Reference, Functor and HybridString handles, each managed object stays alive while some handle owns it and is destroyed exactly once when the last owner lets go. Every handle observes the object its history of assignments defines, including through self-assignment.",
  ["histories"], "every operation sequence on a few handles up to a depth",
  "TestOwned and similar exercise single moves; aliasing and interleavings of assignments are not enumerated.",
  [C + "Owned.h", C + "Reference.h", C + "Functor.h", RT + "string/String.h"], [("Owned move semantics", C + "Owned.h"), ("reference counting", C + "Reference.h"), ("callable storage", C + "Functor.h")])

prop("C11", "Sorting and searching algorithms give the defined result on every array",
  "sort() leaves a permutation of its input ordered by the comparator for every input and element type, and find and rfind return the first (or last) matching index or report that there is none. They never read or write outside the array.",
  ["inputs"], "every array over a small alphabet up to a length, plus structured longer ones",
  "No test covers sort; find is covered by one or two fixed arrays.",
  [RT + "algorithm/Sort.h", RT + "algorithm/Find.h", RT + "algorithm/Filter.h"], [("quicksort partition", RT + "algorithm/Sort.h")])

prop("C12", "String operations compute the defined result on every input",
  "Comparison, concatenation, slicing, searching, trimming, splitting, joining, case change, repetition and prefix/suffix tests on String, StringView and HybridString give exactly the result defined on byte sequences for every input, including empty strings, embedded zero bytes and bytes above 127. Strings are values: no operation changes another string, and nothing outside the operands' bytes is read.",
  ["inputs"], "every pair of strings over a small alphabet (with NUL and high bytes) up to a length, all positions",
  "StringView tests check a dozen literals.",
  [RT + "string/StringView.cpp", RT + "string/StringView.h", RT + "string/String.cpp", RT + "string/String.h"], [("byte-wise comparison and search", RT + "string/StringView.cpp"), ("ownership of bytes", RT + "string/String.cpp")])

prop("C13", "Equal strings and only equal strings share a label",
  "Two strings get the same Label exactly when they are byte-for-byte equal, however many labels have been created in between, and a label's text is always the string it was created from. The empty label is distinct from all others and labels of existing strings are found without creating new ones.",
  ["histories", "inputs"], "every sequence of label creations over a small set of strings, and mass creation past table and pool growth",
  "No test covers labels.",
  [RT + "string/Label.cpp", RT + "string/Label.h"], [("intern table", RT + "string/Label.cpp")])

prop("C14", "Hashes depend only on the data, not on how it is fed",
  "The 128-bit hash of a byte sequence is the same however the bytes are divided among append calls and equals the published algorithm's value, and different short inputs get different hashes. Equal keys always have equal Hasher values whatever string type, alignment or owner holds them.",
  ["inputs"], "every division of inputs of every length up to several blocks into up to four pieces",
  "No test covers Hash128; chunk boundaries relative to the 16-byte block are combinatorial.",
  [C + "Hash128.cpp", C + "Hash128.h", C + "Hash.cpp", C + "Hash.h"], [("block buffering", C + "Hash128.cpp:append")])

def build_with(pid, level, rule, parts, note=TRUST, tech=EXH, assumptions=()):
    CHECKS[pid].update(level=level, rule=rule, parts=parts, note=note, tech=tech, assumptions=list(assumptions))

build_with("C02", "model_checking", "one execution per operation sequence, every lookup and the whole iteration compared with a stable sorted list after every step; states = distinct contents (keys with insertion ranks)", [part("h_btree")])
build_with("C03", "model_checking", "one execution per operation sequence on two arrays; contents, counts and live objects compared with std::vector after every operation; states = distinct pairs of contents up to renaming of values", [part("h_array")])
build_with("C11", "exploration", "one execution per input array; non-trivial when the input has at least two items or the key occurs; distinct by input", [part("h_sort")])
build_with("C04", "model_checking", "one execution per operation sequence for each of six item sizes and several prefills; forward, backward and run-wise iteration, addresses, references and live objects checked after every operation; states = distinct chunk layouts", [part("h_sequence")])
build_with("C05", "model_checking", "one execution per operation sequence, every live item's value, index and the enumeration compared with a map; states = live sets with free-list order", [part("h_pool")])
build_with("C07", "model_checking", "one execution per operation sequence on two or three handles of each kind; which objects are alive, what each handle designates and the reference counts compared with an ownership model after every operation; states = distinct ownership shapes", [part("h_handles")])
build_with("C12", "exploration", "one execution per string (each paired with every other string of the bound, counted as steps); non-trivial when not empty; distinct by content", [part("h_string")])
build_with("C13", "model_checking", "one execution per operation sequence or growth pattern on a fresh label table; every label's text, uniqueness and lookup checked after every step; states = sets of names held", [part("h_label")])
build_with("C14", "exploration", "one execution per length, per division into pieces, per string; non-trivial when not empty; compared with an independent implementation of the algorithm", [part("h_hash")])
