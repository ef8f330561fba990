#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script because the lines are long)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("P01", "A deque is the sequence its operations describe",
  "After any history of operations a deque holds exactly the sequence of values those operations describe: pushes and pops act at the two ends, insert, set and erase at the given positions, and clear removes everything. Size, indexing, front, back, string form and iteration in both directions all report that same sequence, however many values there are and wherever they were pushed and whatever their type is. Positions outside the deque change nothing, and popping an empty deque or reading outside of it panics instead of inventing a value.",
  ["histories"], "every finite history of deque operations, every size and every alignment of the contents with the internal storage",
  "TestDeque-style tests run a handful of fixed sequences and one random one; the behaviour depends on where the contents sit relative to segment boundaries and ring wrap-around, which only specific histories reach.",
  ["ds/deque/deque.go", "ds/deque/segment.go", "ds/deque/pool.go"],
  [("segmented ring of rings", "ds/deque/deque.go: PushFront..EraseRange, expand, shrinkIfNeeded"), ("segment recycling", "ds/deque/pool.go")],
  ["public methods of Deque"], [("begin/end/size", "window of used segments", "ds/deque/deque.go: Deque")])
p("P02", "A vector is the sequence its operations describe",
  "After any history of operations a vector holds exactly the sequence of values those operations describe, of any type; inserting or erasing at a position or iterator shifts the rest by one place and nothing else, and the iterator returned designates the inserted value or the value after the erased ones. Reserving and shrinking capacity never change the contents, and the capacity is never below the size nor below what was reserved. Positions outside the vector change nothing, and reading outside of it panics.",
  ["histories"], "every finite history of vector operations, including those that grow and shrink capacity between insertions",
  "Unit tests fix a few sequences; spare capacity left by earlier erasures and shared backing arrays only matter for particular histories.",
  ["ds/vector/vector.go", "ds/vector/iterator.go"], [("append based storage", "ds/vector/vector.go: InsertAt, EraseIndexRange, Reserve, ShrinkToFit")], ["public methods of Vector"])
p("P03", "Fixed arrays and wrapped slices read back what was written",
  "An array of a given size keeps that size, reads the zero value where nothing was written and otherwise the last value written by set, fill, iterator or swap of whole arrays; swapping arrays exchanges all contents exactly when the sizes are equal. A wrapped slice is a live view: writes through it are visible in the slice and vice versa, also after another slice is attached. Writes outside the range change nothing and reads outside of it panic.",
  ["histories", "inputs"], "every size and every history of writes",
  "Tests cover one array and one slice of fixed length.",
  ["ds/array/array.go", "ds/slice/slice_wrapper.go", "ds/array/iterator.go", "ds/slice/iterator.go"], [("bounds-checked element access", "ds/array/array.go: Set, At, SwapArray"), ("view over a caller's slice", "ds/slice/slice_wrapper.go")])
p("P04", "A bidirectional list keeps order, length and node ownership",
  "After any history of pushes, pops, insertions before or after a node, removals, moves and list copies, walking a bidirectional list forwards and backwards meets exactly the described values in the described order, and the length agrees. A node stays in its list, with its value and identity, until it is removed; operations that are given a node of another list, or one that was removed or cleared away, leave the list unmodified. Inserting a copy of a list works for every list, the receiver itself and empty lists included.",
  ["histories"], "every finite history over two lists and all nodes ever handed out, removed ones included",
  "Tests exercise each operation on one five-element list; ring links, the head pointer and stale nodes interact only in particular orders of operations.",
  ["ds/list/bidlist/list.go", "ds/list/bidlist/iterator.go"], [("circular links with an owner per node", "ds/list/bidlist/list.go: insertAfter, remove, moveToAfter")], ["node walk by Next and Prev", "Len", "String", "Traversal"])
p("P05", "A singly linked list keeps order, length, front and back",
  "After any history of pushes, insertions after a node of the list, removals and moves of a node given together with its predecessor, walking a singly linked list meets exactly the described values in order. The length, the front node and the back node always agree with that walk, so that a later push at the back lands at the end. Moving a node to the front with a node that is not its predecessor changes nothing.",
  ["histories"], "every finite history over the nodes of one list",
  "Tests exercise each operation once; a wrong tail after moving or removing the last node only shows in the operation after it.",
  ["ds/list/simplelist/simplelist.go"], [("head and tail pointers", "ds/list/simplelist/simplelist.go: Remove, MoveToFront, MoveToBack, insertAfter")])
p("P06", "Queues are first-in first-out and stacks last-in first-out",
  "Whatever container a queue or a stack is built on, and whatever its values are, and with or without the goroutine-safe option, a queue hands out its values in the order they were pushed and a stack in the reverse order, each value exactly once. Size, emptiness, front, back, top and string form always describe the values pushed and not yet popped, and clear discards them all. Values already in a container that is handed in count as pushed in their order, and it holds the values from then on. Popping or looking into an empty one panics and leaves it usable.",
  ["histories", "configurations"], "every history of operations, for each of the containers the options offer and for one supplied by the user",
  "Tests push and pop a few values in one order per container.",
  ["ds/queue/queue.go", "ds/stack/stack.go", "ds/deque/deque.go", "ds/list/bidlist/list.go"], [("delegation to a sequential container", "ds/queue/queue.go, ds/stack/stack.go")])
p("P07", "A priority queue always serves the first element in priority order",
  "Top and pop of a priority queue deliver an element that precedes all others according to the comparator, for every comparator that defines an order; among elements that compare equal the one pushed first is served first. Every pushed element is popped exactly once, and size and emptiness agree, also when pushes, pops and clears are interleaved.",
  ["histories", "inputs"], "every interleaving of pushes, pops and clears and every pattern of equal and different priorities",
  "The tests push one fixed series and drain it; ties and interleavings are not covered.",
  ["ds/priorityqueue/priority_queue.go", "ds/heap/heap.go"], [("binary heap with push sequence numbers", "ds/priorityqueue/priority_queue.go: ElementHolder.Less")])
p("P08", "Heap operations keep the heap order and lose nothing",
  "After init, push, pop, remove at an index or fix of a changed element, the elements in the user's collection are in heap order: no element precedes its parent. The collection holds exactly the elements it should, pop and remove return the minimum and the indexed element respectively, and push, pop, remove and fix need a number of comparisons and swaps logarithmic in the size.",
  ["histories", "inputs"], "every arrangement of every small multiset of values, every index and every new value",
  "Tests run one pushed series; the sift-up after a removal in the middle is only needed for particular arrangements.",
  ["ds/heap/heap.go"], [("sift up and sift down", "ds/heap/heap.go: up, down, Remove, Fix")])
p("P09", "A red-black tree is an ordered multimap",
  "After any history of insertions and deletions a tree holds exactly the inserted and not deleted entries in ascending key order, entries with equal keys in insertion order; walking it from the first or from the last entry in either direction and traversing it meet exactly these. Find, lower bound and upper bound deliver the first entry with an equal, a not smaller and a greater key respectively, or report that there is none. Size, emptiness and clear agree with that.",
  ["histories"], "every history of insertions (duplicates included), deletions of any entry and value updates, for every comparator that defines an order",
  "Tests insert and delete random keys and check little more than balance; the rebalancing cases that lose or misplace a subtree need particular shapes.",
  ["ds/rbtree/rbtree.go", "ds/rbtree/node.go", "ds/rbtree/iterator.go"], [("search, insert and delete with rebalancing", "ds/rbtree/rbtree.go: Insert, Delete, rbInsertFixup, rbDeleteFixup"), ("in-order neighbours", "ds/rbtree/node.go: successor, presuccessor")])
p("P10", "A red-black tree stays balanced and its operations logarithmic",
  "After every operation of every history the tree satisfies the red-black rules as its own validity test reports, and that test rejects trees that do not. Insertion, lookup and bound searches therefore need a number of key comparisons that is at most logarithmic in the number of entries, in the worst case and not just on average.",
  ["histories"], "every history of insertions and deletions, ascending, descending and adversarial ones included",
  "Tests use the validity test after random histories only; a missed recolouring in one mirror case survives them.",
  ["ds/rbtree/rbtree.go"], [("recolouring and rotations", "ds/rbtree/rbtree.go: rbInsertFixup, rbFixupLeft, rbFixupRight"), ("validity test", "ds/rbtree/rbtree.go: IsRbTree")], ["IsRbTree", "number of comparator calls"])
p("P11", "Handles stay on their element until it is erased",
  "A node or iterator of a tree, map, multimap, set or multiset keeps designating the element it was obtained for, with its key and its current value, across any insertions and any erasures of other elements. Moving it forwards or backwards then reaches the elements that are its neighbours at that time, and erasing through it erases exactly that element.",
  ["histories"], "every history of insertions and erasures and every element a handle is held on",
  "No test holds a handle across an erasure; the deletion of a node with two children moves entries between nodes.",
  ["ds/rbtree/rbtree.go", "ds/map/map.go", "ds/map/iterator.go", "ds/set/iterator.go"], [("node replacement instead of copying entries", "ds/rbtree/rbtree.go: Delete, replaceNode")])
p("P12", "A map holds the last value inserted for each key, in key order",
  "After any history of insertions, erasures by key or iterator and clears, a map holds for each key inserted and not erased since exactly one entry with the value inserted or set last, whatever the types of keys and values. Get, contains, find, lower and upper bound, first, last, size and traversal report exactly these entries in ascending key order, and report absence for every other key.",
  ["histories"], "every history of map operations and every comparator that defines an order",
  "Tests run short fixed histories on one comparator.",
  ["ds/map/map.go", "ds/map/iterator.go", "ds/rbtree/rbtree.go"], [("unique insertion over the tree", "ds/map/map.go: Insert, Erase, EraseIter")])
p("P13", "A multimap holds every inserted entry until its key is erased",
  "After any history a multimap holds every entry inserted since its key was last erased, duplicates included, in ascending key order and in insertion order within a key. Erasing a key removes all of its entries and no others, and get, contains, find, lower and upper bound, first, last, size and traversal report exactly the entries held, the first of a key where one has to be chosen.",
  ["histories"], "every history of multimap operations over any pattern of repeated keys",
  "Tests use a handful of entries; the loop that erases all entries of a key restructures the tree as it goes.",
  ["ds/map/multimap.go", "ds/rbtree/rbtree.go"], [("repeated erase", "ds/map/multimap.go: Erase")])
p("P14", "Sets and multisets hold exactly the elements put in",
  "A set holds each element inserted and not erased since once, a multiset as often as it was inserted less the erasures, both in ascending order; erase removes one occurrence, erase-all every occurrence, of exactly the given element. Contains, count, find, lower and upper bound, first, last, size, string form and traversal report exactly these elements.",
  ["histories"], "every history of operations over any pattern of repeated elements",
  "Tests use a handful of elements in one order.",
  ["ds/set/set.go", "ds/set/multiset.go", "ds/rbtree/rbtree.go"], [("tree of elements", "ds/set/set.go, ds/set/multiset.go")])
p("P15", "Set intersection, union and difference are the mathematical ones",
  "For any two sets with the same order, intersection, union and difference return a new set with exactly the common elements, the elements of either, and the elements of the first that the second lacks. The result is a fully working set of its own: the operands are unchanged, later changes to any of the three do not show in the others, and this also holds when an operand is empty or both operands are the same set.",
  ["inputs", "histories"], "every pair of sets, however they were built",
  "Tests compare one pair per operation; runs of elements present in one operand only exercise different exits of the merge loops.",
  ["ds/set/set.go"], [("merge of two ordered walks", "ds/set/set.go: Intersect, Union, Diff")])
p("P16", "A skip list is an ordered map for every outcome of its random levels",
  "Whatever levels are drawn, a skip list holds for each key inserted and not removed since exactly one entry with the value inserted last. Get, length, keys and traversal report exactly these entries in ascending key order, and remove tells truly whether the key was there. This holds for every maximum level.",
  ["histories", "configurations"], "every history of insertions, updates and removals combined with every sequence of random level decisions, for each maximum level",
  "Levels are random, so a test sees a few level sequences per run; an entry linked at some levels but not unlinked at others shows only for particular combinations.",
  ["ds/skiplist/skiplist.go"], [("multi-level links", "ds/skiplist/skiplist.go: Insert, Remove, findPrevNodes"), ("level choice", "ds/skiplist/skiplist.go: randomLevel")])
p("P17", "A hash trie is a map for all keys, colliding hashes included",
  "A hash array mapped trie holds for each key inserted and not erased since exactly one entry with the value inserted last, whatever parts of their hashes the keys share, up to completely equal hashes and including the empty key, and for values of every type, nil included. Get, keys, string keys and traversal report each such entry exactly once and nothing else, and erase tells truly whether the key was there.",
  ["histories", "inputs"], "every history of insertions and erasures over keys whose hashes agree in any number of leading digits",
  "Tests insert random keys, which practically never share more than a few hash digits and never collide completely.",
  ["ds/hamt/hamt.go"], [("splitting and collapsing of trie nodes", "ds/hamt/hamt.go: BitmapNode.insert, erase, find"), ("collision chains", "ds/hamt/hamt.go: KvNode")])
p("P18", "A bitmap is exactly the set of its positions",
  "After any history of sets, unsets, resizes and clears, a position within a bitmap reads as set exactly if it was set and not unset, cleared or cut off since, and setting or unsetting one position affects no other. The size is the requested one rounded up to whole bytes; positions outside read as not set and cannot be changed, which the return values tell. A bitmap created from exported data has the same size and positions.",
  ["histories", "inputs"], "every size, every position and every history of operations",
  "Tests touch a few positions of a few sizes.",
  ["ds/bitmap/bitmap.go"], [("byte and bit addressing", "ds/bitmap/bitmap.go: Set, Unset, IsSet, Resize")])
p("P19", "A Bloom filter never forgets an added value",
  "Every value added to a Bloom filter is reported as contained from then on, for every positive number of bits and hash functions and whatever else is added; a fresh filter contains nothing. Exporting the data and creating a filter from it gives a filter that answers every query alike and can be added to independently. A filter dimensioned for a number of values and a tolerated error rate gets the standard optimal parameters and keeps false positives near the tolerated rate.",
  ["histories", "inputs", "configurations"], "every set of added values, every parameter pair and every point of export",
  "Tests add a few strings with one parameter pair.",
  ["ds/bloomfilter/bloom.go", "ds/bitmap/bitmap.go", "algorithm/hash/hash.go"], [("k hashed positions per value", "ds/bloomfilter/bloom.go: Add, Contains"), ("serialisation", "ds/bloomfilter/bloom.go: Data, NewFromData")])
p("P20", "Consistent hashing depends on the membership only and moves few keys",
  "Where a key is placed depends only on the key and on the set of nodes present, not on the order or history of additions and removals, and it is always a present node; with no nodes nothing is found. Adding a node moves keys only to that node, and removing one moves only the keys it held. Every node is reached by some keys, and the number of replicas asked for decides the placement. The ring is one circle: with one replica per node, what a removed node held goes to a single other node, the next one clockwise, and going from next to next leads around all nodes.",
  ["histories", "configurations"], "every history of additions and removals over a set of nodes, every key and every number of replicas",
  "The test adds three nodes and looks up a few keys once.",
  ["ds/ketama/ketama.go", "algorithm/hash/hash.go", "ds/map/map.go"], [("sorted ring of replica points", "ds/ketama/ketama.go: Add, Remove, Get")])
p("P21", "Hash values depend on the data alone and are distinct",
  "The digest of a byte string is its SHA-512 digest. The list of hash values generated from a seed has exactly the requested length, is the same on every call, starts with the same values whatever the requested length, leaves the seed unmodified, and has no repetitions; different seeds give different lists.",
  ["inputs"], "every seed and every requested length",
  "There is one test for the digest and none for the list.",
  ["algorithm/hash/hash.go"], [("chained digests cut into words", "algorithm/hash/hash.go: GenHashInts")])
p("P22", "Comparators are three-way orders of their type",
  "Each predefined comparator returns -1, 0 or 1 according to the order of its type, for all values including the extreme ones, and therefore defines a total order: reflexive, antisymmetric and transitive. For floating point numbers NaN equals NaN and precedes everything else; complex numbers (without NaN parts) are ordered by real part, then imaginary part. The generic comparator for ordered types agrees with the predefined ones on everything but NaN, and reversing a comparator yields the opposite order.",
  ["inputs"], "every pair and triple of values of each type, extremes, signed zeros and mixed signs included",
  "Tests compare two or three small values per type.",
  ["utils/comparator/comparator.go"], [("comparison functions", "utils/comparator/comparator.go")])
p("P23", "Iterators of every container obey one contract",
  "For every container and every content, stepping an iterator from the begin to the end position visits every element once in order, and stepping back from the last one the reverse; an iterator is valid exactly while it designates an element, and goes on designating it while elements behind it come, go or are replaced. Clones move independently of their original, two iterators of a container are equal exactly if they designate the same position, an iterator of one container equals none that designates an element of another (wrapped slices aside, whose iterators compare by position), and writing through an iterator changes exactly the element it designates. Random access iterators report their position and reach any other position.",
  ["inputs", "histories"], "every container kind, every content size including zero, every position and every short walk of steps in both directions",
  "Tests walk one container of a few elements each.",
  ["utils/iterator/iterator.go", "ds/deque/iterator.go", "ds/vector/iterator.go", "ds/array/iterator.go", "ds/slice/iterator.go", "ds/list/bidlist/iterator.go", "ds/list/simplelist/iterator.go", "ds/rbtree/iterator.go", "ds/map/iterator.go", "ds/set/iterator.go"], [("position or node cursor", "each container's iterator.go")])
p("P24", "Sort and stable sort order every range and change nothing else",
  "After sorting, the elements of the range are in comparator order and are a permutation of the elements before, for every content, every length, every comparator that defines an order and every random access container; elements outside the range are untouched. The stable sort in addition keeps elements that compare equal in their original relative order.",
  ["inputs"], "every content up to a length, every sub-range, every pattern of equal elements",
  "Tests sort a few random arrays of one length.",
  ["algorithm/sort/sort.go", "algorithm/sort/stable_sort.go"], [("median-of-three quick sort", "algorithm/sort/sort.go: quickSort, doPivot"), ("merge sort", "algorithm/sort/stable_sort.go")])
p("P25", "Nth element puts the right element at the nth position",
  "After selecting the nth element of a range, the element at that position is the one that sorting would put there, no element before it is greater and none after it is less, and the range still holds the same elements. Elements outside the range are untouched, and a request beyond the range changes nothing.",
  ["inputs"], "every content up to a length, every sub-range and every n",
  "The test selects two random positions of one random array.",
  ["algorithm/sort/nth_element.go"], [("quick select", "algorithm/sort/nth_element.go: nthElement")])
p("P26", "Binary searches find exactly the boundary positions",
  "In every sorted range, binary search tells whether an equal element is present, the lower bound is the first position not less than the value and the upper bound the first one greater, each being the end of the range if there is none. They only look inside the range, leave it and the given iterators unmodified, and need a number of comparisons logarithmic in its length.",
  ["inputs"], "every sorted content with every pattern of repetitions, every sub-range and every value, present or not",
  "Tests search a few values in one array.",
  ["algorithm/sort/search.go"], [("bisection", "algorithm/sort/search.go")])
p("P27", "Next permutation enumerates all arrangements in order",
  "The next permutation of a range is the lexicographically next greater arrangement of the same elements, repeated elements included, and the call reports whether there was one; at the last arrangement it reports so. Started from the sorted arrangement, repeated calls visit every distinct arrangement exactly once. Elements outside the range are untouched.",
  ["inputs"], "every arrangement of every multiset up to a size and every sub-range",
  "The tests print the six permutations of three numbers and check nothing.",
  ["algorithm/sort/next_permutation.go"], [("suffix reversal", "algorithm/sort/next_permutation.go")])
p("P28", "Range algorithms see exactly the half-open range",
  "Count, find, minimum, maximum and the any, all and none tests, with values or predicates, report about exactly the elements from first up to but not including last: the first match is found, the first of several extreme elements is returned, and last is returned when there is no answer. Swap exchanges two elements and reverse turns around exactly the elements of the range, for every range including empty and odd ones. The iterators passed in are not moved.",
  ["inputs"], "every content up to a length, every sub-range, every container with iterators and every predicate",
  "Tests run each algorithm on one sequence and the whole range.",
  ["algorithm/const_op.go", "algorithm/op.go"], [("iterator walks", "algorithm/const_op.go, algorithm/op.go")])
p("P29", "Traversals visit each element once, in order, until told to stop",
  "A traversal of any container calls the visitor once per element in the order of the container, and after the visitor has returned false it is not called again. A traversal changes nothing, and everything listed by keys, string keys or string form matches what it visits.",
  ["histories", "inputs"], "every container with a traversal, every content and shape, every stopping point",
  "Tests stop at most once at one element.",
  ["ds/list/bidlist/list.go", "ds/list/simplelist/simplelist.go", "ds/rbtree/rbtree.go", "ds/map/map.go", "ds/set/set.go", "ds/skiplist/skiplist.go", "ds/hamt/hamt.go"], [("visitor loops", "Traversal of each container")])
p("P30", "Goroutine-safe queues, stacks and priority queues are linearizable",
  "When goroutines use one goroutine-safe queue, stack or priority queue concurrently, every call behaves as if it had taken effect at one instant between its start and its end, for every interleaving: no value is lost, duplicated or invented, and order is kept. No interleaving deadlocks, panics or leaves the container corrupted.",
  ["schedules"], "every interleaving of concurrent calls, up to a number of goroutines, calls and preemptions",
  "The concurrency tests start goroutines and let the scheduler pick one interleaving per run.",
  ["ds/queue/queue.go", "ds/stack/stack.go", "ds/priorityqueue/priority_queue.go"], [("reader-writer lock around every method", "ds/queue/queue.go, ds/stack/stack.go, ds/priorityqueue/priority_queue.go")], ["call results", "contents drained afterwards"])
p("P31", "Goroutine-safe maps and sets are linearizable",
  "When goroutines use goroutine-safe maps, multimaps, sets or multisets concurrently, every call, the operations on two sets included, behaves as if it had taken effect at one instant between its start and its end, for every interleaving; for the operations on two sets each operand is read at one instant. No interleaving deadlocks, panics or leaves a container corrupted.",
  ["schedules"], "every interleaving of concurrent calls, up to a number of goroutines, calls and preemptions",
  "The concurrency tests start goroutines and let the scheduler pick one interleaving per run.",
  ["ds/map/map.go", "ds/map/multimap.go", "ds/set/set.go", "ds/set/multiset.go"], [("reader-writer lock around every method", "ds/map/map.go, ds/set/set.go")], ["call results", "contents drained afterwards"])
p("P32", "Goroutine-safe tries, skip lists, filters and rings are linearizable",
  "When goroutines use a goroutine-safe skip list, hash trie, Bloom filter or consistent hash ring concurrently, every call behaves as if it had taken effect at one instant between its start and its end, for every interleaving. No interleaving deadlocks, panics or leaves the structure corrupted.",
  ["schedules"], "every interleaving of concurrent calls, up to a number of goroutines, calls and preemptions",
  "The concurrency tests start goroutines and let the scheduler pick one interleaving per run.",
  ["ds/skiplist/skiplist.go", "ds/hamt/hamt.go", "ds/bloomfilter/bloom.go", "ds/ketama/ketama.go"], [("reader-writer lock around every method", "ds/skiplist/skiplist.go, ds/hamt/hamt.go, ds/bloomfilter/bloom.go, ds/ketama/ketama.go")], ["call results", "contents drained afterwards"])
p("P33", "Goroutine-safe containers have no data race",
  "Concurrent calls on a container created with the goroutine-safe option never access the same memory without synchronisation when one of them writes. This holds for every pair of methods, read-only ones included, also when two containers are involved and when separate containers that share nothing visible are used by different goroutines.",
  ["schedules"], "every pair of concurrent calls under every interleaving up to a preemption bound",
  "Tests are not run with the race detector, and a race needs the two particular methods to overlap.",
  ["ds/queue/queue.go", "ds/stack/stack.go", "ds/priorityqueue/priority_queue.go", "ds/map/map.go", "ds/map/multimap.go", "ds/set/set.go", "ds/set/multiset.go", "ds/skiplist/skiplist.go", "ds/hamt/hamt.go", "ds/bloomfilter/bloom.go", "ds/ketama/ketama.go"], [("reader lock for reads, writer lock for writes", "every method of the goroutine-safe containers")])
p("P34", "A panic out of a goroutine-safe container leaves it unlocked and intact",
  "When a call on a goroutine-safe container panics, because it is empty or because the visitor or comparator supplied by the user panics, the panic reaches the caller and the container remains usable: no later call of any goroutine blocks. If the call was one that only reads, the contents are unchanged.",
  ["fault_sequences", "schedules"], "every method, every point at which a callback can panic, and every following call",
  "No test lets a callback panic.",
  ["ds/queue/queue.go", "ds/stack/stack.go", "ds/priorityqueue/priority_queue.go", "ds/map/map.go", "ds/map/multimap.go", "ds/set/set.go", "ds/set/multiset.go", "ds/skiplist/skiplist.go", "ds/hamt/hamt.go"], [("deferred unlock", "every method of the goroutine-safe containers")])
p("P35", "Copies are independent of their originals",
  "A vector or array created from another one, a list into which a list was copied, the list of keys returned by a container, the data exported by a Bloom filter and the result of a set operation are snapshots: adding, removing or replacing elements of the copy leaves the original unchanged and vice versa. Separately created containers never influence each other, unless they are views of storage the caller handed in (wrapped slices, bitmaps made from data).",
  ["histories"], "every content, every way of copying and every change of either side afterwards",
  "Tests compare a copy with its original once and change neither.",
  ["ds/vector/vector.go", "ds/array/array.go", "ds/list/bidlist/list.go", "ds/bloomfilter/bloom.go", "ds/set/set.go", "ds/skiplist/skiplist.go", "ds/hamt/hamt.go"], [("element-wise copies", "NewFromVector, NewFromArray, PushBackList, Data, Keys")])

p("P36", "A pair holds the two values it was made of",
  "A pair reports as its front and back exactly the two values it was last given, whatever their types, and neither reading nor comparing changes it. Two pairs compare equal exactly when their fronts are equal and their backs are equal, types included, so that the comparison is symmetric and position matters. Pairs made or copied separately never influence each other.",
  ["histories", "inputs"], "every two pairs of values of any types and every history of assignments",
  "The test makes three pairs of small integers.",
  ["ds/pair/pair.go"], [("interface-valued fields", "ds/pair/pair.go: MakePair, New, Equal")])

p("P37", "Ordered containers, priority queues and sorts stay cheap in comparisons",
  "The number of times the user's comparator is asked is bounded. Inserting into, finding in, erasing from and searching bounds in a map, multimap, set or multiset, and pushing to and popping from a priority queue, ask it at most logarithmically often in the number of entries, in the worst case (erasing equal entries at most that often for each of them). Union, intersection and difference, and the stable sort, need at most n log n comparisons on every input; quick sort and selection need at most that many on distinct elements already in order or in reverse. Insertion, lookup and removal in a skip list are logarithmic on the average while its maximum level suffices.",
  ["histories", "inputs"], "every size, every order of insertion and removal, and every key, present or not",
  "Tests look at results only; an operation that scans everything passes them.",
  ["ds/map/map.go", "ds/map/multimap.go", "ds/set/set.go", "ds/set/multiset.go", "ds/rbtree/rbtree.go", "ds/priorityqueue/priority_queue.go", "ds/heap/heap.go", "ds/skiplist/skiplist.go", "algorithm/sort/stable_sort.go", "algorithm/sort/sort.go", "algorithm/sort/nth_element.go"], [("descent in the balanced tree", "ds/rbtree/rbtree.go: FindNode, FindLowerBoundNode"), ("sift up and down", "ds/heap/heap.go"), ("levels drawn by a fair generator", "ds/skiplist/skiplist.go: randomLevel"), ("median of three", "algorithm/sort/sort.go: doPivot")])

p("P38", "Calls that only look leave everything as it is",
  "Any number of goroutines may look at the same container at the same time, goroutine-safe or not, as long as none changes it: reading calls, lookups, traversals, string forms, copies, set operations, iteration with iterators of each goroutine's own or cloned from a common one, and the algorithms that only search or count. No such call is involved in a data race, and each returns what it returns to a single reader. An algorithm that rearranges a range neither reads nor writes elements outside it, so goroutines may work on disjoint ranges of one slice, array, vector or deque.",
  ["schedules", "inputs"], "every pair and every three of reading calls on the same container, for every kind of container, and every pair of algorithms on disjoint ranges",
  "All tests but one are single-threaded, and a call that caches or parks something in the container it looks at returns the right result to a single reader.",
  ["ds/vector/vector.go", "ds/array/array.go", "ds/slice/slice_wrapper.go", "ds/deque/deque.go", "ds/list/bidlist/list.go", "ds/list/simplelist/simplelist.go", "ds/rbtree/rbtree.go", "ds/map/map.go", "ds/map/multimap.go", "ds/set/set.go", "ds/set/multiset.go", "ds/skiplist/skiplist.go", "ds/hamt/hamt.go", "ds/bitmap/bitmap.go", "ds/bloomfilter/bloom.go", "ds/ketama/ketama.go", "algorithm/const_op.go", "algorithm/op.go", "algorithm/sort/sort.go", "algorithm/sort/search.go"], [("lookups without side effects", "ds/rbtree/rbtree.go: FindLowerBoundNode; ds/skiplist/skiplist.go: Get"), ("half-open ranges", "algorithm/sort/sort.go: Sort")])

p("P39", "Memory follows the contents",
  "However many elements have gone in and out, the memory that can be reached from a container stays in proportion to what it holds: to the number of elements present for deques, lists, trees, maps, sets, skip lists, hash tries and rings, and for queues and stacks made of them; to the greatest number present so far for vectors, unless they are shrunk, and priority queues; to the size for bitmaps and Bloom filters. So a container that stays small while elements pass through it does not grow, draining or clearing one gives its memory back, and lookups and other calls that change nothing take none.",
  ["histories"], "every history: any pattern of insertions and removals repeated any number of times, and any other pattern after it",
  "Tests are short and look at contents only; what is left behind shows after thousands of operations, and only in the memory.",
  ["ds/deque/deque.go", "ds/deque/pool.go", "ds/vector/vector.go", "ds/list/bidlist/list.go", "ds/list/simplelist/simplelist.go", "ds/rbtree/rbtree.go", "ds/map/map.go", "ds/map/multimap.go", "ds/set/set.go", "ds/set/multiset.go", "ds/skiplist/skiplist.go", "ds/hamt/hamt.go", "ds/priorityqueue/priority_queue.go", "ds/bitmap/bitmap.go", "ds/bloomfilter/bloom.go", "ds/ketama/ketama.go"], [("segments recycled, spare ones given up", "ds/deque/deque.go: putToPool, shrinkIfNeeded"), ("nodes with one entry collapse", "ds/hamt/hamt.go: erase"), ("unlinking", "ds/rbtree/rbtree.go: Delete; ds/skiplist/skiplist.go: Remove")])

p("P40", "Operations take the time their structure promises",
  "How much an operation does is bounded by what its data structure promises, whatever the size of the container and whatever operations came before, averaged over a long run of operations. Constant: pushing and popping at the ends a container offers, access by index and to the ends, size, and a step of an iterator, in vectors, deques, lists, queues and stacks, and moving, inserting and removing nodes of lists. Logarithmic at most: inserting, erasing, looking up, bounds, first and last and a step of an iterator in trees, maps and sets, pushing to and popping from heaps and priority queues, and the operations of hash tries, consistent hash rings and skip lists with enough levels for their contents. Proportional to the number of elements: traversing, copying, clearing, inserting or erasing by position in a vector or deque, heap.Init, reversing, searching, counting, the next permutation, resizing bitmaps; set operations and stable sorting at most a logarithm more. No size and no alternation of operations exists where a container keeps reorganising itself.",
  ["histories", "inputs"], "every history: any pattern of operations repeated any number of times, at any size, and every order of insertion",
  "Tests look at results only, on a handful of elements; a list that is walked to find its end, a table that is resized back and forth or grows by a fixed amount gives the right results.",
  ["ds/vector/vector.go", "ds/deque/deque.go", "ds/deque/pool.go", "ds/list/bidlist/list.go", "ds/list/simplelist/simplelist.go", "ds/queue/queue.go", "ds/stack/stack.go", "ds/priorityqueue/priority_queue.go", "ds/heap/heap.go", "ds/rbtree/rbtree.go", "ds/rbtree/node.go", "ds/map/map.go", "ds/set/set.go", "ds/skiplist/skiplist.go", "ds/hamt/hamt.go", "ds/ketama/ketama.go", "algorithm/op.go", "algorithm/const_op.go", "algorithm/sort/search.go"], [("growth by a factor, shrinking with slack", "ds/deque/deque.go: expand, shrinkIfNeeded, putToPool"), ("append", "ds/vector/vector.go: PushBack"), ("balance", "ds/rbtree/rbtree.go: Insert, Delete"), ("levels", "ds/skiplist/skiplist.go: randomLevel")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
