From 6417d26b692e065f20be4e2a0d6e5dd9fb763306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:14 +0000
Subject: [PATCH 01/17] fix: import math in utils/comparator so that it and its
 dependents compile

---
 utils/comparator/comparator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/comparator/comparator.go b/utils/comparator/comparator.go
index 32ba76d..aad362d 100644
--- a/utils/comparator/comparator.go
+++ b/utils/comparator/comparator.go
@@ -1,5 +1,7 @@
 package comparator
 
+import "math"
+
 type Ordered interface {
 	Integer | Float | ~string
 }
-- 
2.43.0


From 391ab9c9fa0f4dfc564fe8e546674cb4a9f45bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:25 +0000
Subject: [PATCH 02/17] fix: Complex64Comparator compared real(a) with itself

---
 utils/comparator/comparator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/comparator/comparator.go b/utils/comparator/comparator.go
index aad362d..f903548 100644
--- a/utils/comparator/comparator.go
+++ b/utils/comparator/comparator.go
@@ -282,7 +282,7 @@ func Complex64Comparator(a, b complex64) int {
 	if a == b {
 		return 0
 	}
-	if real(a) < real(a) {
+	if real(a) < real(b) {
 		return -1
 	}
 	if real(a) == real(b) && imag(a) < imag(b) {
-- 
2.43.0


From 367b6bfdb69f44ff179a6e160532ee00da0f0f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:26 +0000
Subject: [PATCH 03/17] fix: bidlist PushBackList/PushFrontList panicked on an
 empty list

---
 ds/list/bidlist/list.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ds/list/bidlist/list.go b/ds/list/bidlist/list.go
index bde246e..8925536 100644
--- a/ds/list/bidlist/list.go
+++ b/ds/list/bidlist/list.go
@@ -269,6 +269,10 @@ func (l *List[T]) moveToAfter(n, at *Node[T]) {
 // The list and other may be the same. They must not be nil.
 func (l *List[T]) PushBackList(other *List[T]) {
 	for i, n := other.Len(), other.FrontNode(); i > 0; i, n = i-1, n.Next() {
+		if l.head == nil {
+			l.PushBack(n.Value)
+			continue
+		}
 		l.InsertAfter(n.Value, l.head.prev)
 	}
 }
@@ -277,6 +281,10 @@ func (l *List[T]) PushBackList(other *List[T]) {
 // The list and other may be the same. They must not be nil.
 func (l *List[T]) PushFrontList(other *List[T]) {
 	for i, e := other.Len(), other.BackNode(); i > 0; i, e = i-1, e.Prev() {
+		if l.head == nil {
+			l.PushFront(e.Value)
+			continue
+		}
 		l.InsertBefore(e.Value, l.head)
 	}
 }
-- 
2.43.0


From 26fc34d461e0681dec3afcd258a8c4e6b331d203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:27 +0000
Subject: [PATCH 04/17] fix: bidlist Clear left its nodes attached to the list

---
 ds/list/bidlist/list.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ds/list/bidlist/list.go b/ds/list/bidlist/list.go
index 8925536..e8dd7bc 100644
--- a/ds/list/bidlist/list.go
+++ b/ds/list/bidlist/list.go
@@ -190,6 +190,9 @@ func (l *List[T]) remove(n *Node[T]) *Node[T] {
 
 // Clear removes all nodes
 func (l *List[T]) Clear() {
+	for l.head != nil {
+		l.remove(l.head) // detach the node, it is not a node of the list any more
+	}
 	l.head = nil
 	l.len = 0
 }
-- 
2.43.0


From 690e1b9fa7b988149325d59c4651f64b8a3eaf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:28 +0000
Subject: [PATCH 05/17] fix: bidlist MoveAfter did nothing when moving the
 front node after the back node

---
 ds/list/bidlist/list.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ds/list/bidlist/list.go b/ds/list/bidlist/list.go
index e8dd7bc..859283f 100644
--- a/ds/list/bidlist/list.go
+++ b/ds/list/bidlist/list.go
@@ -250,6 +250,10 @@ func (l *List[T]) MoveAfter(n, mark *Node[T]) {
 	if n.list != l || n == mark || mark.list != l {
 		return
 	}
+	if mark == l.head.prev { // also when n is the head, which follows mark in the ring
+		l.MoveToBack(n)
+		return
+	}
 	l.moveToAfter(n, mark)
 }
 
-- 
2.43.0


From ce8d198caa7a13973a7dc988255d8ef000601723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:29 +0000
Subject: [PATCH 06/17] fix: SliceWrapper.Last returned the end position

---
 ds/slice/slice_wrapper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ds/slice/slice_wrapper.go b/ds/slice/slice_wrapper.go
index 32c0935..608f9d7 100644
--- a/ds/slice/slice_wrapper.go
+++ b/ds/slice/slice_wrapper.go
@@ -60,6 +60,6 @@ func (s *SliceWrapper[T]) First() *SliceIterator[T] {
 // Last returns the last iterator of s
 func (s *SliceWrapper[T]) Last() *SliceIterator[T] {
 	return &SliceIterator[T]{s: s,
-		position: s.Len(),
+		position: s.Len() - 1,
 	}
 }
-- 
2.43.0


From 05a06d710d714d19a954750afb464d2b34ee9985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:30 +0000
Subject: [PATCH 07/17] fix: hamt Traversal went on with sibling nodes after
 the visitor returned false

---
 ds/hamt/hamt.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ds/hamt/hamt.go b/ds/hamt/hamt.go
index 9ca1833..03684c1 100644
--- a/ds/hamt/hamt.go
+++ b/ds/hamt/hamt.go
@@ -161,19 +161,22 @@ func (h *BitmapNode[T]) find(depth int, hash uint64, key Key) (T, error) {
 	return *new(T), ErrorNotFound
 }
 
-func (h *BitmapNode[T]) traversal(visitor visitor.KvVisitor[Key, T]) {
+func (h *BitmapNode[T]) traversal(visitor visitor.KvVisitor[Key, T]) bool {
 	for _, entry := range h.children {
 		if entry.Type() == BITMAP_NODE {
-			entry.(*BitmapNode[T]).traversal(visitor)
+			if !entry.(*BitmapNode[T]).traversal(visitor) {
+				return false
+			}
 		} else {
 			node := entry.(*KvNode[T])
 			for kv := node.kvList; kv != nil; kv = kv.next {
 				if !visitor(kv.key, kv.value) {
-					return
+					return false
 				}
 			}
 		}
 	}
+	return true
 }
 
 func (h *BitmapNode[T]) erase(depth int, hash uint64, key Key) bool {
-- 
2.43.0


From 4a4657206a408e42f14429ceaf984b8cb4a64342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:31 +0000
Subject: [PATCH 08/17] fix: ketama Get panicked when the last node was removed
 concurrently

---
 ds/ketama/ketama.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ds/ketama/ketama.go b/ds/ketama/ketama.go
index a890a76..97c5aa6 100644
--- a/ds/ketama/ketama.go
+++ b/ds/ketama/ketama.go
@@ -115,6 +115,10 @@ func (k *Ketama) Get(key string) (string, bool) {
 	k.locker.Lock()
 	defer k.locker.Unlock()
 
+	if k.m.Size() == 0 { // the last node may have been removed since
+		return "", false
+	}
+
 	iter := k.m.LowerBound(hash)
 	if iter.IsValid() {
 		return iter.Value(), true
-- 
2.43.0


From 6263957ec832cc3c761399937b1175d0e23d78ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 09/17] fix: set Intersect/Union/Diff read the other set
 without its lock

---
 ds/set/set.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ds/set/set.go b/ds/set/set.go
index 057be50..b6c2330 100644
--- a/ds/set/set.go
+++ b/ds/set/set.go
@@ -185,6 +185,7 @@ func (s *Set[T]) String() string {
 // Intersect returns a new set with the common elements in the set s and the passed set
 // Please ensure s set and other set uses the same keyCmp
 func (s *Set[T]) Intersect(other *Set[T]) *Set[T] {
+	other = other.snapshot()
 	s.locker.RLock()
 	defer s.locker.RUnlock()
 
@@ -209,6 +210,7 @@ func (s *Set[T]) Intersect(other *Set[T]) *Set[T] {
 // Union returns a new set with the all elements in the set s and the passed set
 // Please ensure s set and other set uses the same keyCmp
 func (s *Set[T]) Union(other *Set[T]) *Set[T] {
+	other = other.snapshot()
 	s.locker.RLock()
 	defer s.locker.RUnlock()
 
@@ -241,6 +243,7 @@ func (s *Set[T]) Union(other *Set[T]) *Set[T] {
 // Diff returns a new set with the elements in the set s but not in the passed set
 // Please ensure s set and other set uses the same keyCmp
 func (s *Set[T]) Diff(other *Set[T]) *Set[T] {
+	other = other.snapshot()
 	s.locker.RLock()
 	defer s.locker.RUnlock()
 
@@ -264,3 +267,16 @@ func (s *Set[T]) Diff(other *Set[T]) *Set[T] {
 	}
 	return set
 }
+
+// snapshot returns a copy of the set. Reading another set through its snapshot needs no lock,
+// so that the locks of two sets are never held at the same time
+func (s *Set[T]) snapshot() *Set[T] {
+	s.locker.RLock()
+	defer s.locker.RUnlock()
+
+	set := New(s.keyCmp)
+	for node := s.tree.First(); node != nil; node = node.Next() {
+		set.tree.Insert(node.Key(), Empty)
+	}
+	return set
+}
-- 
2.43.0


From c01624c81cecca9621c3eb0e5211671a632719ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:33 +0000
Subject: [PATCH 10/17] fix: Reverse panicked on an empty range

---
 algorithm/op.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/algorithm/op.go b/algorithm/op.go
index 3762592..c980e2b 100644
--- a/algorithm/op.go
+++ b/algorithm/op.go
@@ -14,6 +14,9 @@ func Swap[T any](a, b iterator.Iterator[T]) {
 
 // Reverse reverse the elements in the range [first, last]
 func Reverse[T any](first, last iterator.BidIterator[T]) {
+	if first.Equal(last) {
+		return
+	}
 	left := first.Clone().(iterator.BidIterator[T])
 	right := last.Clone().(iterator.BidIterator[T]).Prev().(iterator.BidIterator[T])
 	for !left.Equal(right) {
-- 
2.43.0


From dcece7254a3ef96d202a0094be13cbcbd851a14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:34 +0000
Subject: [PATCH 11/17] fix: Stable recursed without end on an empty range

---
 algorithm/sort/stable_sort.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/algorithm/sort/stable_sort.go b/algorithm/sort/stable_sort.go
index 1765635..b355939 100644
--- a/algorithm/sort/stable_sort.go
+++ b/algorithm/sort/stable_sort.go
@@ -7,6 +7,9 @@ import (
 
 //Stable sorts the container by using merge sort
 func Stable[T any](first, last iterator.RandomAccessIterator[T], cmp comparator.Comparator[T]) {
+	if first.Position() >= last.Position() {
+		return
+	}
 	tempSlice := make([]T, last.Position()-first.Position(), last.Position()-first.Position())
 	mergeSort(first, last, cmp, tempSlice)
 
-- 
2.43.0


From a1bad49a2ebd23401218d1ce41d810632df5650e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 12/17] fix: NthElement left ranges of two elements unsorted

---
 algorithm/sort/nth_element.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithm/sort/nth_element.go b/algorithm/sort/nth_element.go
index 9b434e1..57b8cf5 100644
--- a/algorithm/sort/nth_element.go
+++ b/algorithm/sort/nth_element.go
@@ -15,7 +15,7 @@ func NthElement[T any](first, last iterator.RandomAccessIterator[T], n int, cmp
 }
 
 func nthElement[T any](first, last iterator.RandomAccessIterator[T], n int, cmp comparator.Comparator[T]) {
-	if first.Position()+1 >= last.Position() {
+	if first.Position() >= last.Position() {
 		return
 	}
 
-- 
2.43.0


From 7f793c748320db35e65253cba3495e3c35c2c664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:37 +0000
Subject: [PATCH 13/17] fix: priority queue served elements of the same
 priority out of order

---
 ds/priorityqueue/priority_queue.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ds/priorityqueue/priority_queue.go b/ds/priorityqueue/priority_queue.go
index 8f2371e..1271cfc 100644
--- a/ds/priorityqueue/priority_queue.go
+++ b/ds/priorityqueue/priority_queue.go
@@ -15,12 +15,16 @@ var (
 // ElementHolder holds elements of the PriorityQueue
 type ElementHolder[T any] struct {
 	elements []T
+	seqs     []uint64 // seqs[i] is the push order of elements[i]
+	nextSeq  uint64
 	cmpFun   comparator.Comparator[T]
 }
 
 // Push pushes an element to the ElementHolder
 func (h *ElementHolder[T]) Push(element T) {
 	h.elements = append(h.elements, element)
+	h.seqs = append(h.seqs, h.nextSeq)
+	h.nextSeq++
 }
 
 // Pop pops an element from the ElementHolder
@@ -30,6 +34,7 @@ func (h *ElementHolder[T]) Pop() T {
 	}
 	item := h.elements[h.Len()-1]
 	h.elements = h.elements[:h.Len()-1]
+	h.seqs = h.seqs[:h.Len()]
 	return item
 }
 
@@ -47,12 +52,17 @@ func (h *ElementHolder[T]) Len() int {
 
 // Len compare two elements at position i and j , and returns true if elements[i] < elements[j]
 func (h *ElementHolder[T]) Less(i, j int) bool {
-	return h.cmpFun(h.elements[i], h.elements[j]) < 0
+	if cmp := h.cmpFun(h.elements[i], h.elements[j]); cmp != 0 {
+		return cmp < 0
+	}
+	// elements with the same priority are served in the order they were pushed
+	return h.seqs[i] < h.seqs[j]
 }
 
 // Swap swaps two elements at position i and j
 func (h *ElementHolder[T]) Swap(i, j int) {
 	h.elements[i], h.elements[j] = h.elements[j], h.elements[i]
+	h.seqs[i], h.seqs[j] = h.seqs[j], h.seqs[i]
 }
 
 // Options holds PriorityQueue's options
@@ -133,6 +143,7 @@ func (q *PriorityQueue[T]) Clear() {
 
 	// reset cap to zero
 	q.holder.elements = q.holder.elements[:0]
+	q.holder.seqs = q.holder.seqs[:0]
 }
 
 // Size returns the amount of elements in the queue
-- 
2.43.0


From dd72b5b7958297f2e590cacb3e807c6935f713c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:38 +0000
Subject: [PATCH 14/17] fix: rbtree Delete invalidated the handles of the
 successor of the deleted node

---
 ds/rbtree/rbtree.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/ds/rbtree/rbtree.go b/ds/rbtree/rbtree.go
index cf7cee9..e2f7159 100644
--- a/ds/rbtree/rbtree.go
+++ b/ds/rbtree/rbtree.go
@@ -205,9 +205,31 @@ func (t *RbTree[K, V]) Delete(node *Node[K, V]) {
 	if y.color {
 		t.rbDeleteFixup(x, xparent)
 	}
+	if y != z {
+		t.replaceNode(z, y)
+	}
 	t.size--
 }
 
+// replaceNode puts node y, which is not linked in the tree, in the place of node z.
+// So only the handles (nodes, iterators) of the deleted element become invalid, not the ones of its successor
+func (t *RbTree[K, V]) replaceNode(z, y *Node[K, V]) {
+	y.parent, y.left, y.right, y.color = z.parent, z.left, z.right, z.color
+	if y.left != nil {
+		y.left.parent = y
+	}
+	if y.right != nil {
+		y.right.parent = y
+	}
+	if y.parent == nil {
+		t.root = y
+	} else if z == y.parent.left {
+		y.parent.left = y
+	} else {
+		y.parent.right = y
+	}
+}
+
 func (t *RbTree[K, V]) rbDeleteFixup(x, parent *Node[K, V]) {
 	var w *Node[K, V]
 	for x != t.root && getColor(x) {
-- 
2.43.0


From f027336e4b28ded2e552cbaffbc86b370a1c744e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:34 +0000
Subject: [PATCH 15/17] fix: NthElement rearranged the range although n was out
 of range

---
 algorithm/sort/nth_element.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithm/sort/nth_element.go b/algorithm/sort/nth_element.go
index 57b8cf5..5ad4fda 100644
--- a/algorithm/sort/nth_element.go
+++ b/algorithm/sort/nth_element.go
@@ -7,7 +7,7 @@ import (
 
 // NthElement Rearranges the elements in the range [first,last), in such a way that the element at the nth position is the element that would be in that position in a sorted sequence
 func NthElement[T any](first, last iterator.RandomAccessIterator[T], n int, cmp comparator.Comparator[T]) {
-	if first.Position() < 0 || last.Position()-first.Position() < n {
+	if first.Position() < 0 || n < 0 || last.Position()-first.Position() <= n {
 		return
 	}
 	len := last.Position() - first.Position()
-- 
2.43.0


From abdc22ebeba6e42534cee97e0343a8ab58e0718c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:05 +0000
Subject: [PATCH 16/17] fix: Bloom filters created from the same exported data
 shared their bits

---
 ds/bloomfilter/bloom.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ds/bloomfilter/bloom.go b/ds/bloomfilter/bloom.go
index dfac42f..fd44799 100644
--- a/ds/bloomfilter/bloom.go
+++ b/ds/bloomfilter/bloom.go
@@ -75,7 +75,8 @@ func NewFromData(data []byte, opts ...Option) *BloomFilter {
 	reader := bytes.NewReader(data)
 	binary.Read(reader, binary.LittleEndian, &b.m)
 	binary.Read(reader, binary.LittleEndian, &b.k)
-	b.b = bitmap.NewFromData(data[8+8:])
+	// the bits are copied: the caller keeps data and may create other filters from it
+	b.b = bitmap.NewFromData(append([]byte(nil), data[8+8:]...))
 	return b
 }
 
-- 
2.43.0


From 4ac6f9c8b13ee7b9e9a813830acdb848496df964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 17/17] fix: skiplist: insertion does not end with more than 64
 levels

---
 ds/skiplist/skiplist.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ds/skiplist/skiplist.go b/ds/skiplist/skiplist.go
index 43a70c6..aabe928 100644
--- a/ds/skiplist/skiplist.go
+++ b/ds/skiplist/skiplist.go
@@ -163,9 +163,13 @@ func (sl *Skiplist[K, V]) Len() int {
 }
 
 func (sl *Skiplist[K, V]) randomLevel() int {
-	total := uint64(1)<<uint64(sl.maxLevel) - 1 // 2^n-1
+	n := uint64(sl.maxLevel)
+	if n > 64 { // there are 64 random bits
+		n = 64
+	}
+	total := uint64(1)<<n - 1 // 2^n-1
 	k := sl.rander.Uint64() % total
-	levelN := uint64(1) << (uint64(sl.maxLevel) - 1)
+	levelN := uint64(1) << (n - 1)
 
 	level := 1
 	for total -= levelN; total > k; level++ {
-- 
2.43.0

