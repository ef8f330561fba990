package props

import (
	"encoding/binary"
	"fmt"
	"slices"
	"strconv"
	"strings"
	"unsafe"

	"github.com/liyue201/gostl/algorithm"
	"github.com/liyue201/gostl/algorithm/sort"
	"github.com/liyue201/gostl/ds/array"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/hamt"
	"github.com/liyue201/gostl/ds/heap"
	"github.com/liyue201/gostl/ds/ketama"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	"github.com/liyue201/gostl/ds/priorityqueue"
	"github.com/liyue201/gostl/ds/queue"
	"github.com/liyue201/gostl/ds/rbtree"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/ds/skiplist"
	"github.com/liyue201/gostl/ds/slice"
	"github.com/liyue201/gostl/ds/stack"
	"github.com/liyue201/gostl/ds/vector"
	"github.com/liyue201/gostl/utils/iterator"
	"verifmc/core"
	"verifmc/vrand"
)

// Contents of more than 2^16 elements: every way of building them up and taking them apart of a family of regular
// ones, with a close look whenever the size passes a power of two.

// largeSize is the number of elements.
func largeSize(c Ctx) int { return c.Pick(66000, 600000) }

// power says whether a size is next to a power of two, from 128 on.
func power(n int) bool {
	for p := 128; p <= n+1; p *= 2 {
		if n >= p-1 && n <= p+1 {
			return true
		}
	}
	return false
}

// places are the positions of interest below n.
func places(n int) (o []int) {
	o = append(o, 0, 1, 2, n/3, n/2, n-3, n-2, n-1)
	for p := 128; p <= n; p *= 2 {
		o = append(o, p-1, p, p+1)
	}
	slices.Sort(o)
	o = slices.Compact(o)
	return slices.DeleteFunc(o, func(p int) bool { return p < 0 || p >= n })
}

const largeOrders = 6

var largeOrderNames = [largeOrders]string{"ascending", "descending", "from both ends", "from the middle", "by strides", "even ones, then odd ones backwards"}

// largeOrder lists 0..n-1 in one of a few orders.
func largeOrder(kind, n int) []int {
	o := make([]int, n)
	for i := range o {
		switch kind {
		case 0:
			o[i] = i
		case 1:
			o[i] = n - 1 - i
		case 2, 3:
			o[i] = i / 2
			if i%2 == 1 {
				o[i] = n - 1 - i/2
			}
		case 4:
			o[i] = int(int64(i) * 40111 % int64(n)) // 40111 is prime to the sizes used
		case 5:
			if o[i] = 2 * i; 2*i >= n {
				o[i] = 2*(n-1-i) + 1
			}
		}
	}
	if kind == 3 {
		slices.Reverse(o)
	}
	return o
}

// twoEnded is a sequence that grows at both ends.
type twoEnded struct {
	b    []int
	l, r int
}

func newTwoEnded(n int) *twoEnded { return &twoEnded{make([]int, 2*n+1000), n + 8, n + 8} }
func (s *twoEnded) back(v int)    { s.b[s.r] = v; s.r++ }
func (s *twoEnded) front(v int)   { s.l--; s.b[s.l] = v }
func (s *twoEnded) popBack() int  { s.r--; return s.b[s.r] }
func (s *twoEnded) popFront() int { s.l++; return s.b[s.l-1] }
func (s *twoEnded) all() []int    { return s.b[s.l:s.r] }
func (s *twoEnded) size() int     { return s.r - s.l }
func (s *twoEnded) insert(i, v int) {
	copy(s.b[s.l+i+1:s.r+1], s.b[s.l+i:s.r])
	s.b[s.l+i] = v
	s.r++
}
func (s *twoEnded) erase(i int) {
	copy(s.b[s.l+i:s.r-1], s.b[s.l+i+1:s.r])
	s.r--
}

// largeSeq is a sequence under test; what it cannot do is nil.
type largeSeq struct {
	name              string
	back, front       func(v int)
	popBack, popFront func() int
	insert            func(i, v int)
	erase             func(i int)
	size              func() int
	same              func(m []int) error // the contents are these
}

func atSame(at func(i int) int) func(m []int) error {
	return func(m []int) error {
		for i, v := range m {
			if g := at(i); g != v {
				return errf("element %d of %d is %d, want %d", i, len(m), g, v)
			}
		}
		return nil
	}
}

func walkSame(what string, m []int, step func() (int, bool)) error {
	for i, v := range m {
		g, ok := step()
		if !ok || g != v {
			return errf("%s: element %d of %d is %d (%v), want %d", what, i, len(m), g, ok, v)
		}
	}
	if g, ok := step(); ok {
		return errf("%s: %d follows the last one of %d elements", what, g, len(m))
	}
	return nil
}

func largeSeqs(prop string) []func() *largeSeq {
	switch prop {
	case "P01":
		return []func() *largeSeq{func() *largeSeq {
			d := deque.New[int]()
			return &largeSeq{"deque", d.PushBack, d.PushFront, d.PopBack, d.PopFront, d.Insert, d.EraseAt, d.Size, atSame(d.At)}
		}}
	case "P02":
		return []func() *largeSeq{func() *largeSeq {
			d := vector.New[int]()
			return &largeSeq{"vector", d.PushBack, nil, d.PopBack, nil, d.InsertAt, d.EraseAt, d.Size, atSame(d.At)}
		}}
	case "P04":
		return []func() *largeSeq{func() *largeSeq {
			d := bidlist.New[int]()
			node := func(i int) *bidlist.Node[int] {
				if i > d.Len()/2 {
					x := d.BackNode()
					for k := d.Len() - 1; k > i; k-- {
						x = x.Prev()
					}
					return x
				}
				x := d.FrontNode()
				for ; i > 0; i-- {
					x = x.Next()
				}
				return x
			}
			return &largeSeq{"bidlist", d.PushBack, d.PushFront, d.PopBack, d.PopFront, func(i, v int) {
				if i == d.Len() {
					d.InsertAfter(v, node(i-1))
				} else {
					d.InsertBefore(v, node(i))
				}
			}, func(i int) { d.Remove(node(i)) }, d.Len, func(m []int) error {
				x, y := d.FrontNode(), d.BackNode()
				if err := walkSame("forwards", m, func() (v int, ok bool) {
					if x == nil {
						return
					}
					v, x = x.Value, x.Next()
					return v, true
				}); err != nil {
					return err
				}
				for i := len(m) - 1; i >= 0; i-- {
					if y == nil || y.Value != m[i] {
						return errf("backwards: element %d of %d is missing or wrong", i, len(m))
					}
					y = y.Prev()
				}
				if y != nil {
					return errf("something comes before the first of %d elements", len(m))
				}
				return nil
			}}
		}}
	case "P05":
		return []func() *largeSeq{func() *largeSeq {
			d := simplelist.New[int]()
			node := func(i int) *simplelist.Node[int] {
				if i < 0 {
					return nil
				}
				if i == d.Len()-1 {
					return d.BackNode()
				}
				x := d.FrontNode()
				for ; i > 0; i-- {
					x = x.Next()
				}
				return x
			}
			return &largeSeq{"simplelist", d.PushBack, d.PushFront, nil, func() int { return d.Remove(nil, d.FrontNode()) }, func(i, v int) {
				if i == 0 {
					d.PushFront(v)
				} else {
					d.InsertAfter(v, node(i-1))
				}
			}, func(i int) {
				p := node(i - 1)
				if p == nil {
					d.Remove(nil, d.FrontNode())
				} else {
					d.Remove(p, p.Next())
				}
			}, d.Len, func(m []int) error {
				x := d.FrontNode()
				if len(m) > 0 && d.BackNode().Value != m[len(m)-1] {
					return errf("the last one of %d elements is %d, want %d", len(m), d.BackNode().Value, m[len(m)-1])
				}
				return walkSame("forwards", m, func() (v int, ok bool) {
					if x == nil {
						return
					}
					v, x = x.Value, x.Next()
					return v, true
				})
			}}
		}}
	case "P06":
		var o []func() *largeSeq
		for _, qo := range [][]queue.Option[int]{nil, {queue.WithListContainer[int](), queue.WithGoroutineSafe[int]()}} {
			o = append(o, func() *largeSeq {
				q := queue.New[int](qo...)
				return &largeSeq{"queue", q.Push, nil, nil, q.Pop, nil, nil, q.Size, func(m []int) error {
					if len(m) == 0 {
						return want("Empty()", q.Empty(), true)
					}
					return first(want("Front()", q.Front(), m[0]), want("Back()", q.Back(), m[len(m)-1]))
				}}
			})
		}
		for _, so := range [][]stack.Option[int]{nil, {stack.WithListContainer[int](), stack.WithGoroutineSafe[int]()}} {
			o = append(o, func() *largeSeq {
				q := stack.New[int](so...)
				return &largeSeq{"stack", q.Push, nil, q.Pop, nil, nil, nil, q.Size, func(m []int) error {
					if len(m) == 0 {
						return want("Empty()", q.Empty(), true)
					}
					return want("Top()", q.Top(), m[len(m)-1])
				}}
			})
		}
		return o
	}
	return nil
}

var largeWays = [3]string{"at the back", "at the front", "at both ends in turn"}

func largeSeqEnum(c Ctx, prop string) *core.Enum {
	mks := largeSeqs(prop)
	n := largeSize(c)
	return &core.Enum{Name: "large contents", N: int64(len(mks) * 9), Chunk: 1,
		Show: func(i int64) string {
			return fmt.Sprintf("container %d: %d elements pushed %s, taken out %s", i/9, n, largeWays[i%3], largeWays[i/3%3])
		},
		Run: func(w *core.Worker, i int64) (int64, error) {
			s := mks[i/9]()
			up, down := int(i%3), int(i/3%3)
			if up > 0 && s.front == nil || down != 1 && s.popBack == nil || down > 0 && s.popFront == nil {
				return 0, nil
			}
			m := newTwoEnded(n + 100)
			ops := int64(0)
			look := func() error {
				w.Tick()
				return first(want("size", s.size(), m.size()), s.same(m.all()))
			}
			near := func(what string) error {
				ops++
				if g := s.size(); g != m.size() {
					return errf("%s: size %d, want %d", what, g, m.size())
				}
				if ops&0xff == 0 {
					w.Tick()
				}
				if power(m.size()) {
					if err := look(); err != nil {
						return errf("%s, %d elements: %w", what, m.size(), err)
					}
				}
				return nil
			}
			for k := 0; k < n; k++ {
				if up == 1 || up == 2 && k%2 == 1 {
					s.front(k)
					m.front(k)
				} else {
					s.back(k)
					m.back(k)
				}
				if err := near("push"); err != nil {
					return ops, err
				}
			}
			if s.insert != nil && (down == 0 || down == 1 && s.popBack == nil) {
				for j, p := range append(places(n), n) {
					ops += 2
					s.insert(p, -1-j)
					m.insert(p, -1-j)
					if err := look(); err != nil {
						return ops, errf("after an insertion at %d: %w", p, err)
					}
					if j%2 == 1 {
						p = min(p+1, m.size()-1)
					}
					s.erase(p)
					m.erase(p)
					if err := look(); err != nil {
						return ops, errf("after the erasure at %d: %w", p, err)
					}
				}
			}
			for k := 0; m.size() > 0; k++ {
				var g, x int
				if down == 1 || down == 2 && k%2 == 1 {
					g, x = s.popFront(), m.popFront()
				} else {
					g, x = s.popBack(), m.popBack()
				}
				if g != x {
					return ops, errf("with %d elements left %d was taken out, want %d", m.size(), g, x)
				}
				if err := near("removal"); err != nil {
					return ops, err
				}
			}
			// and once more
			for k := 0; k < 300; k++ {
				s.back(k)
				m.back(k)
			}
			return ops, look()
		}}
}

// largeOrdEnum builds ordered containers of many distinct keys.
func largeOrdEnum(c Ctx, name string, mk func() *ordAd) *core.Enum {
	n := largeSize(c)
	return &core.Enum{Name: "large contents, " + name, N: largeOrders * largeOrders, Chunk: 1,
		Show: func(i int64) string {
			return fmt.Sprintf("%d keys inserted %s, erased %s", n, largeOrderNames[i%largeOrders], largeOrderNames[i/largeOrders])
		},
		Run: func(w *core.Worker, i int64) (int64, error) {
			if !c.Thorough() && (i%largeOrders+i/largeOrders)%3 != 0 { // each with each other way only in the thorough tier
				return 0, nil
			}
			a := mk()
			in := make([]bool, n)
			size := 0
			ops := int64(0)
			val := func(k int) Val {
				if a.vals {
					return Val(3*k + 1)
				}
				return 0
			}
			look := func() error {
				w.Tick()
				k := 0
				bad := error(nil)
				count := 0
				a.traverse(func(g Key, v Val) bool {
					for k < n && !in[k] {
						k++
					}
					if k == n || g != Key(2*k+2) || v != val(k) {
						bad = errf("entry %d of the traversal is %v: %v", count, g, v)
						return false
					}
					k++
					count++
					return true
				})
				if bad == nil && count != size {
					bad = errf("%d entries in the traversal, want %d", count, size)
				}
				if bad == nil && a.valid != nil {
					bad = a.valid()
				}
				// back with a cursor
				cur := a.lasts[0]()
				for k := n - 1; k >= 0 && bad == nil; k-- {
					if in[k] {
						if !cur.valid() || cur.key() != Key(2*k+2) {
							bad = errf("walking back, the entry of key %d is missing", 2*k+2)
							break
						}
						cur = cur.prev()
					}
				}
				if bad == nil && cur.valid() {
					bad = errf("walking back, something comes before the first")
				}
				// bounds
				after := make([]int, n+1) // the first key there from k on
				after[n] = -1
				for k := n - 1; k >= 0; k-- {
					after[k] = after[k+1]
					if in[k] {
						after[k] = k
					}
				}
				is := func(what string, key int, cur cursor, k int) {
					if bad == nil && (cur.valid() != (k >= 0) || k >= 0 && cur.key() != Key(2*k+2)) {
						bad = errf("%s(%d) is not right with %d entries", what, key, size)
					}
				}
				for _, p := range places(n) {
					k := 2*p + 2
					is("LowerBound", k-1, a.lower(Key(k-1)), after[p])
					is("LowerBound", k, a.lower(Key(k)), after[p])
					is("UpperBound", k-1, a.upper(Key(k-1)), after[p])
					is("UpperBound", k, a.upper(Key(k)), after[p+1])
					f := -1
					if in[p] {
						f = p
					}
					is("Find", k, a.find(Key(k)), f)
					is("Find", k-1, a.find(Key(k-1)), -1)
					if bad == nil && a.contains != nil && (a.contains(Key(k)) != in[p] || a.contains(Key(k-1))) {
						bad = errf("Contains(%d) or Contains(%d) is not right", k, k-1)
					}
					if bad == nil && a.get != nil {
						v, ok := a.get(Key(k))
						if ok != in[p] || ok && v != val(p) {
							bad = errf("Get(%d) = %v, %v", k, v, ok)
						}
					}
				}
				return bad
			}
			step := func(what string, k int) error {
				ops++
				if g := a.size(); g != size {
					return errf("%s %d: size %d, want %d", what, 2*k+2, g, size)
				}
				if ops&0xff == 0 {
					w.Tick()
				}
				if power(size) && size%2 == 0 {
					if err := look(); err != nil {
						return errf("%s %d, size %d: %w", what, 2*k+2, size, err)
					}
				}
				return nil
			}
			for _, k := range largeOrder(int(i%largeOrders), n) {
				a.insert(Key(2*k+2), val(k))
				in[k] = true
				size++
				if err := step("inserting", k); err != nil {
					return ops, err
				}
			}
			if err := look(); err != nil {
				return ops, err
			}
			for j, k := range largeOrder(int(i/largeOrders), n) {
				if a.erase == nil || a.eraseCur != nil && j%2 == 1 {
					a.eraseCur(a.find(Key(2*k + 2)))
				} else {
					a.erase(Key(2*k + 2))
				}
				in[k] = false
				size--
				if err := step("erasing", k); err != nil {
					return ops, err
				}
			}
			return ops, look()
		}}
}

// largeEqualEnum builds ordered containers that keep equal keys.
func largeEqualEnum(c Ctx, name string, mk func() *ordAd) *core.Enum {
	n := largeSize(c)
	return &core.Enum{Name: "large contents of equal keys, " + name, N: 4, Chunk: 1,
		Show: func(i int64) string { return fmt.Sprintf("%d entries of %d keys", n, i+1) },
		Run: func(w *core.Worker, i int64) (int64, error) {
			a := mk()
			keys := int(i) + 1
			cnt := make([]int, keys)
			gone := make([]bool, n) // erased
			size := 0
			look := func() error {
				w.Tick()
				seen := make([]bool, n)
				var bad error
				k, c, total := 0, 0, 0
				a.traverse(func(g Key, v Val) bool {
					for k < keys && c == cnt[k] {
						k, c = k+1, 0
					}
					if k == keys || g != Key(2*k+2) {
						bad = errf("entry %d of the traversal has key %v", total, g)
						return false
					}
					if a.vals {
						if v < 0 || int(v) >= n || seen[v] || gone[v] || int(v)%keys != k {
							bad = errf("entry %d of the traversal is %v: %v", total, g, v)
							return false
						}
						seen[v] = true
					}
					c++
					total++
					return true
				})
				for k := 0; k < keys && bad == nil; k++ {
					if a.count != nil {
						bad = want("Count()", a.count(Key(2*k+2)), cnt[k])
					}
					if cnt[k] > 0 && bad == nil {
						x := a.lower(Key(2*k + 2))
						if !x.valid() || x.key() != Key(2*k+2) || x.prev().valid() && x.prev().key() == Key(2*k+2) {
							bad = errf("LowerBound(%d) is not the first of %d equal keys", 2*k+2, cnt[k])
						}
					}
					x := a.find(Key(2*k + 2))
					if bad == nil && x.valid() != (cnt[k] > 0) {
						bad = errf("Find(%d) with %d such entries: %v", 2*k+2, cnt[k], x.valid())
					}
					if bad == nil && cnt[k] > 0 {
						if x.key() != Key(2*k+2) || x.prev().valid() && x.prev().key() == Key(2*k+2) {
							bad = errf("Find(%d) is not the first of %d equal keys", 2*k+2, cnt[k])
						}
						for v := k; v < n && a.vals && a.get != nil && bad == nil; v += keys {
							if !gone[v] {
								if g, ok := a.get(Key(2*k + 2)); !ok || g != Val(v) {
									bad = errf("Get(%d) = %v, %v, want %d, the first of %d entries", 2*k+2, g, ok, v, cnt[k])
								}
								break
							}
						}
					}
					x = a.upper(Key(2*k + 2))
					if bad == nil && x.valid() && x.key() <= Key(2*k+2) {
						bad = errf("UpperBound(%d) is not behind the last of %d equal keys", 2*k+2, cnt[k])
					}
				}
				if bad == nil && a.valid != nil {
					bad = a.valid()
				}
				return first(bad, want("entries in the traversal", total, size), want("Size()", a.size(), size))
			}
			for v := 0; v < n; v++ {
				k := v % keys
				a.insert(Key(2*k+2), Val(v))
				cnt[k]++
				size++
				if power(size) || size == n {
					if err := look(); err != nil {
						return int64(v), errf("after %d insertions: %w", size, err)
					}
				}
				if v&0xff == 0 {
					w.Tick()
				}
			}
			for k := 0; k < keys; k++ {
				switch {
				case a.erase == nil: // a tree: one after the other, the values tell which
					for x := a.find(Key(2*k + 2)); x.valid(); x = a.find(Key(2*k + 2)) {
						if x.key() != Key(2*k+2) || gone[x.val()] {
							return int64(n), errf("FindNode(%d) gives an entry %v: %v that is not there", 2*k+2, x.key(), x.val())
						}
						gone[x.val()] = true
						a.eraseCur(x)
						cnt[k]--
						size--
						if power(cnt[k]) {
							if err := look(); err != nil {
								return int64(n), errf("with %d entries left: %w", size, err)
							}
						}
					}
				case a.eraseOne:
					for j := 0; j < 300; j++ {
						a.erase(Key(2*k + 2))
						size--
						cnt[k]--
					}
					if err := look(); err != nil {
						return int64(n), errf("after 300 erasures: %w", err)
					}
					a.eraseAll(Key(2*k + 2))
					size -= cnt[k]
					cnt[k] = 0
				default:
					a.erase(Key(2*k + 2))
					for v := k; v < n; v += keys {
						gone[v] = true
					}
					size -= cnt[k]
					cnt[k] = 0
				}
				if err := look(); err != nil {
					return int64(n), errf("after all of key %d were erased: %w", 2*k+2, err)
				}
			}
			return int64(2 * n), nil
		}}
}

// largeVals arranges the numbers up to m in an array of n.
var largeValNames = []string{"ascending", "descending", "from both ends", "from the middle", "by strides", "even ones, then odd ones backwards", "a saw of 7", "a saw of 300", "two values by blocks", "ascending but the last", "descending but the first"}

func largeVals(kind, n int) []int {
	switch {
	case kind < largeOrders:
		return largeOrder(kind, n)
	}
	o := make([]int, n)
	for i := range o {
		switch kind {
		case 6:
			o[i] = i % 7
		case 7:
			o[i] = i % 300
		case 8:
			o[i] = i / 1000 % 2
		case 9:
			o[i] = i
			if i == n-1 {
				o[i] = -1
			}
		case 10:
			o[i] = n - i
			if i == 0 {
				o[i] = -1
			}
		}
	}
	return o
}

type lv struct{ k, id int }

func lvCmp(a, b lv) int { return a.k - b.k }

type lvIter = iterator.RandomAccessIterator[lv]

// lvRange makes a range of a container that holds the values between two others.
func lvRange(kind int, vs []int) (first, last lvIter, at func(i int) lv) {
	full := make([]lv, 0, len(vs)+2)
	full = append(full, lv{1 << 40, -1})
	for i, v := range vs {
		full = append(full, lv{v, i})
	}
	full = append(full, lv{-1 << 40, -2})
	n := len(vs)
	switch kind {
	case 0:
		w := slice.NewSliceWrapper(full)
		return w.Begin().IteratorAt(1), w.Begin().IteratorAt(n + 1), func(i int) lv { return full[i] }
	case 1:
		v := vector.New[lv]()
		for _, x := range full {
			v.PushBack(x)
		}
		return v.IterAt(1), v.IterAt(n + 1), v.At
	case 2:
		d := deque.New[lv]()
		for _, x := range full {
			d.PushBack(x)
		}
		return d.IterAt(1), d.IterAt(n + 1), d.At
	}
	a := array.New[lv](len(full))
	for i, x := range full {
		a.Set(i, x)
	}
	return a.IterAt(1), a.IterAt(n + 1), a.At
}

// slow says that quick sort as it is takes quadratic time on the arrangement.
func slow(kind int) bool {
	return kind == 6 || kind == 8 || kind == 2 || kind == 3 || kind == 5 || kind == 7
}

func largeSortEnum(c Ctx, prop string) *core.Enum {
	kinds := len(largeValNames)
	algos := 2
	if prop == "P25" {
		algos = 6
	}
	return &core.Enum{Name: "large ranges", N: int64(kinds * 4 * algos), Chunk: 1,
		Show: func(i int64) string {
			return fmt.Sprintf("%s, container %d, algorithm %d", largeValNames[int(i)%kinds], int(i)/kinds%4, int(i)/kinds/4)
		},
		Run: func(w *core.Worker, i int64) (int64, error) {
			kind, cont, algo := int(i)%kinds, int(i)/kinds%4, int(i)/kinds/4
			n := largeSize(c)
			if c.Thorough() {
				n = 140000
			}
			if !c.Thorough() && cont > 1 && kind%3 != 0 {
				return 0, nil
			}
			if slow(kind) && (prop == "P25" || algo == 0) {
				n = c.Pick(1500, 6000)
			}
			vs := largeVals(kind, n)
			f, l, at := lvRange(cont, vs)
			sorted := slices.Clone(vs)
			slices.Sort(sorted)
			calls := int64(0)
			cmp := func(a, b lv) int {
				if calls++; calls&0xff == 0 {
					w.Tick()
				}
				return lvCmp(a, b)
			}
			nth := 0
			switch {
			case prop == "P25":
				nth = []int{n / 3, n - 1, 0, n / 2, n - n/5, n / 64}[algo]
				sort.NthElement[lv](f, l, nth, cmp)
			case algo == 0:
				sort.Sort[lv](f, l, cmp)
			default:
				sort.Stable[lv](f, l, cmp)
			}
			if at(0).id != -1 || at(n+1).id != -2 {
				return calls, errf("elements outside of the range have changed")
			}
			seen := make([]bool, n)
			for k := 0; k < n; k++ {
				x := at(k + 1)
				if x.id < 0 || seen[x.id] || x.k != vs[x.id] {
					return calls, errf("element %d is %v, which is not one of those there were", k, x)
				}
				seen[x.id] = true
				switch {
				case prop == "P25":
					if k < nth && x.k > sorted[nth] || k > nth && x.k < sorted[nth] || k == nth && x.k != sorted[nth] {
						return calls, errf("element %d is %d, the one at %d should be %d", k, x.k, nth, sorted[nth])
					}
				case x.k != sorted[k]:
					return calls, errf("element %d is %d, want %d", k, x.k, sorted[k])
				case algo == 1 && k > 0 && at(k).k == x.k && at(k).id > x.id:
					return calls, errf("equal elements at %d have changed their order", k)
				}
			}
			return calls, nil
		}}
}

// everyNthEnum selects every position of ranges of several lengths.
func everyNthEnum(c Ctx) *core.Enum {
	sizes := []int{33, 64, 65, 100, 129, 257, 400, 513, c.Pick(1030, 1030), c.Pick(1500, 4100)}
	kinds := len(largeValNames)
	return &core.Enum{Name: "every position of long ranges", N: int64(kinds * len(sizes)), Chunk: 1,
		Show: func(i int64) string {
			return fmt.Sprintf("%d elements, %s", sizes[int(i)/kinds], largeValNames[int(i)%kinds])
		},
		Run: func(w *core.Worker, i int64) (int64, error) {
			kind, n := int(i)%kinds, sizes[int(i)/kinds]
			if kind < largeOrders && kind != 4 && n > 600 { // quadratic, and few different outcomes
				return 0, nil
			}
			vs := largeVals(kind, n)
			if kind == 4 {
				for j := range vs {
					vs[j] = j * 40111 % n / (1 + n%3)
				}
			}
			sorted := slices.Clone(vs)
			slices.Sort(sorted)
			cmp := func(a, b lv) int { return lvCmp(a, b) }
			for k := 0; k < n; k++ {
				w.Tick()
				f, l, at := lvRange(0, vs)
				sort.NthElement[lv](f, l, k, cmp)
				if at(0).id != -1 || at(n+1).id != -2 {
					return int64(k), errf("NthElement(%d): elements outside of the range have changed", k)
				}
				seen := make([]bool, n)
				for j := 0; j < n; j++ {
					x := at(j + 1)
					if x.id < 0 || seen[x.id] || x.k != vs[x.id] {
						return int64(k), errf("NthElement(%d): element %d is %v, which is not one of those there were", k, j, x)
					}
					seen[x.id] = true
					if j < k && x.k > sorted[k] || j > k && x.k < sorted[k] || j == k && x.k != sorted[k] {
						return int64(k), errf("NthElement(%d): element %d is %d, the one at %d should be %d", k, j, x.k, k, sorted[k])
					}
				}
			}
			return int64(n), nil
		}}
}

func largeSearchEnum(c Ctx) *core.Enum {
	return &core.Enum{Name: "large ranges", N: 4 * 3, Chunk: 1,
		Show: func(i int64) string {
			return fmt.Sprintf("container %d, runs of %d equal elements", i/3, []int{1, 3, 1000}[i%3])
		},
		Run: func(w *core.Worker, i int64) (int64, error) {
			n, run := largeSize(c), []int{1, 3, 1000}[i%3]
			vs := make([]int, n)
			for k := range vs {
				vs[k] = 2 * (k / run)
			}
			f, l, _ := lvRange(int(i/3), vs)
			calls := int64(0)
			cmp := func(a, b lv) int {
				if calls++; calls&0xff == 0 {
					w.Tick()
				}
				return lvCmp(a, b)
			}
			for _, p := range places(n) {
				for d := -1; d <= 1; d++ {
					v := vs[p] + d
					lo, _ := slices.BinarySearch(vs, v)
					up, _ := slices.BinarySearch(vs, v+1)
					if err := first(want(fmt.Sprintf("BinarySearch(%d)", v), sort.BinarySearch[lv](f, l, lv{v, 0}, cmp), up > lo),
						want(fmt.Sprintf("position of LowerBound(%d)", v), sort.LowerBound[lv](f, l, lv{v, 0}, cmp).Position(), lo+1),
						want(fmt.Sprintf("position of UpperBound(%d)", v), sort.UpperBound[lv](f, l, lv{v, 0}, cmp).Position(), up+1)); err != nil {
						return calls, err
					}
				}
			}
			return calls, nil
		}}
}

func largeRangeEnum(c Ctx) *core.Enum {
	return &core.Enum{Name: "large ranges", N: 4, Chunk: 1,
		Show: func(i int64) string { return fmt.Sprintf("container %d", i) },
		Run: func(w *core.Worker, i int64) (int64, error) {
			n := largeSize(c)
			vs := largeOrder(0, n)
			f, l, at := lvRange(int(i), vs)
			cf, cl := iterator.ConstIterator[lv](f), iterator.ConstIterator[lv](l)
			pos := func(x iterator.ConstIterator[lv]) int { return x.(lvIter).Position() - 1 }
			ops := int64(0)
			cmp := func(a, b lv) int {
				if ops++; ops&0xff == 0 {
					w.Tick()
				}
				return a.k - b.k
			}
			for _, p := range places(n) {
				ops++
				hit := func(x iterator.ConstIterator[lv]) bool { w.Tick(); return x.Value().k == p }
				from := func(x iterator.ConstIterator[lv]) bool { return x.Value().k >= p }
				peak := func(a, b lv) int { // p is the greatest
					if a.k == p || b.k == p {
						switch {
						case a.k == b.k:
							return 0
						case a.k == p:
							return 1
						}
						return -1
					}
					return cmp(a, b)
				}
				if err := first(want("Find", pos(algorithm.Find[lv](cf, cl, lv{p, 0}, cmp)), p),
					want("FindIf", pos(algorithm.FindIf[lv](cf, cl, from)), p),
					want("Count", algorithm.Count[lv](cf, cl, lv{p, 0}, cmp), 1),
					want("CountIf", algorithm.CountIf[lv](cf, cl, from), n-p),
					want("AnyOf", algorithm.AnyOf[lv](cf, cl, hit), true),
					want("NoneOf", algorithm.NoneOf[lv](cf, cl, hit), false),
					want("AllOf", algorithm.AllOf[lv](cf, cl, func(x iterator.ConstIterator[lv]) bool { return x.Value().k != p }), false),
					want("MaxElement", pos(algorithm.MaxElement[lv](cf, cl, peak)), p),
					want("MinElement", pos(algorithm.MinElement[lv](cf, cl, func(a, b lv) int { return peak(b, a) })), p)); err != nil {
					return ops, errf("element %d of %d: %w", p, n, err)
				}
			}
			for _, m := range []int{n, n - 1} {
				algorithm.Reverse[lv](f.(iterator.BidIterator[lv]), f.IteratorAt(m+1).(iterator.BidIterator[lv]))
				for k := 0; k < n; k++ {
					e := k
					if k < m {
						e = m - 1 - k
					}
					if at(k+1).k != e {
						return ops, errf("after Reverse of %d elements element %d is %d", m, k, at(k+1).k)
					}
				}
				algorithm.Reverse[lv](f.(iterator.BidIterator[lv]), f.IteratorAt(m+1).(iterator.BidIterator[lv]))
			}
			return ops, first(want("element in front", at(0).id, -1), want("element behind", at(n+1).id, -2))
		}}
}

func largePermEnum(c Ctx) *core.Enum {
	return &core.Enum{Name: "large ranges", N: 4, Chunk: 1,
		Show: func(i int64) string { return fmt.Sprintf("container %d", i) },
		Run: func(w *core.Worker, i int64) (int64, error) {
			n := largeSize(c)
			ops := int64(0)
			cmp := func(a, b lv) int {
				if ops++; ops&0xff == 0 {
					w.Tick()
				}
				return a.k - b.k
			}
			for _, p := range places(n) {
				// ascending up to p, then descending
				vs := largeOrder(0, n)
				slices.Reverse(vs[p:])
				f, l, at := lvRange(int(i), vs)
				x := slices.Clone(vs)
				more := false
				if p > 0 {
					more = true
					// the one before p and the smallest greater one, which is the last
					x[p-1], x[n-1] = x[n-1], x[p-1]
					slices.Reverse(x[p:])
				}
				if err := want("NextPermutation", sort.NextPermutation[lv](f, l, cmp), more); err != nil {
					return ops, errf("%d elements, descending from %d: %w", n, p, err)
				}
				for k := range x {
					if more && at(k+1).k != x[k] {
						return ops, errf("%d elements, descending from %d: element %d is %d, want %d", n, p, k, at(k+1).k, x[k])
					}
				}
			}
			return ops, nil
		}}
}

// largeIterEnum walks iterators over many elements.
func largeIterEnum(c Ctx) *core.Enum {
	return &core.Enum{Name: "large contents", N: 6, Chunk: 1,
		Show: func(i int64) string {
			return []string{"slice wrapper", "vector", "deque", "array", "bidlist", "simplelist"}[i]
		},
		Run: func(w *core.Worker, i int64) (int64, error) {
			n := largeSize(c)
			ops := int64(0)
			if i >= 4 {
				bl, sl := bidlist.New[int](), simplelist.New[int]()
				for k := 0; k < n; k++ {
					bl.PushBack(k)
					sl.PushBack(k)
				}
				var it iterator.ConstIterator[int] = bidlist.NewIterator(bl.FrontNode())
				if i == 5 {
					it = simplelist.NewIterator(sl.FrontNode())
				}
				for k := 0; k < n; k++ {
					if !it.IsValid() || it.Value() != k {
						return ops, errf("iterator at element %d: valid %v", k, it.IsValid())
					}
					it.Next()
					if ops++; ops&0xff == 0 {
						w.Tick()
					}
				}
				return ops, want("IsValid() at the end", it.IsValid(), false)
			}
			vs := largeOrder(0, n)
			f, l, _ := lvRange(int(i), vs)
			it := f.Clone().(lvIter)
			for k := 0; k < n; k++ {
				if !it.IsValid() || it.Value().k != k || it.Position() != k+1 || it.Equal(l) {
					return ops, errf("iterator at element %d: position %d", k, it.Position())
				}
				it.Next()
				if ops++; ops&0xff == 0 {
					w.Tick()
				}
			}
			if !it.Equal(l) || it.Position() != n+1 {
				return ops, errf("iterator at the end: position %d", it.Position())
			}
			for k := n - 1; k >= 0; k-- {
				it.Prev()
				if !it.IsValid() || it.Value().k != k || it.Position() != k+1 {
					return ops, errf("iterator back at element %d: position %d", k, it.Position())
				}
				if ops++; ops&0xff == 0 {
					w.Tick()
				}
			}
			if !it.Equal(f) {
				return ops, errf("iterator back at the start: position %d", it.Position())
			}
			ps := places(n)
			for _, p := range ps {
				x := f.IteratorAt(p + 1)
				if !x.IsValid() || x.Value().k != p || x.Position() != p+1 {
					return ops, errf("IteratorAt(%d): position %d", p+1, x.Position())
				}
				for _, q := range ps {
					y := x.IteratorAt(q + 1)
					ops++
					if y.Value().k != q || x.Position() != p+1 || x.Equal(y) != (p == q) || y.Equal(x) != (p == q) {
						return ops, errf("IteratorAt(%d) from position %d: position %d", q+1, p+1, y.Position())
					}
				}
			}
			return ops, nil
		}}
}

// keyed is a map to a value of keys that are numbers.
type keyed struct {
	name   string
	insert func(k int)
	remove func(k int) bool
	get    func(k int) (int, bool)
	each   func(f func(k, v int) bool)
	size   func() int
	keys   func() int
	sorted bool
}

func largeKeyed(prop string) []func() *keyed {
	if prop == "P16" {
		var o []func() *keyed
		for _, lv := range []int{0, 1, 16, 64} {
			o = append(o, func() *keyed {
				var src *vrand.Chosen
				var so []skiplist.Option
				if lv > 0 {
					so = append(so, skiplist.WithMaxLevel(lv))
				}
				skipMu.Lock()
				vrand.OnNew(func(c *vrand.Chosen) { src = c })
				l := skiplist.New[int, int](func(a, b int) int { return a - b }, so...)
				vrand.OnNew(func(c *vrand.Chosen) {})
				skipMu.Unlock()
				max := lv
				if max == 0 {
					max = 10
				}
				n := uint64(0)
				return &keyed{name: fmt.Sprintf("maximum level %d", lv), insert: func(k int) {
					if n++; src != nil { // levels like those of the positions
						j := 1
						for j < max && n>>uint(j-1)&1 == 0 {
							j++
						}
						src.Choose(1<<uint(max-j) - 1)
					}
					l.Insert(k, 3*k)
				}, remove: l.Remove, get: func(k int) (int, bool) { v, err := l.Get(k); return v, err == nil },
					each: func(f func(k, v int) bool) { l.Traversal(f) }, size: l.Len, keys: func() int { return len(l.Keys()) }, sorted: true}
			})
		}
		return o
	}
	key := []func(k int) hamt.Key{func(k int) hamt.Key {
		var b [4]byte
		binary.LittleEndian.PutUint32(b[:], uint32(k))
		return b[:]
	}, func(k int) hamt.Key { return hamt.Key(fmt.Sprintf("key %d", k)) },
		// 16 bits of the number choose between keys of the same hash
		func(k int) hamt.Key {
			var b []byte
			for i := 0; i < 6; i++ {
				x := uint64(0xb80f9939bd562ca)
				if k>>uint(i)&1 == 1 {
					x = 0x1fbafaacef1ecbb6
				}
				b = binary.LittleEndian.AppendUint64(b, x)
			}
			return append(b, byte(k>>6), byte(k>>14))
		}}
	num := []func(x hamt.Key) int{func(x hamt.Key) int { return int(binary.LittleEndian.Uint32(x)) }, func(x hamt.Key) int {
		k, err := strconv.Atoi(strings.TrimPrefix(string(x), "key "))
		if err != nil {
			return -1
		}
		return k
	}, func(x hamt.Key) int {
		k := int(x[48])<<6 | int(x[49])<<14
		for i := 0; i < 6; i++ {
			if binary.LittleEndian.Uint64(x[8*i:]) == 0x1fbafaacef1ecbb6 {
				k |= 1 << uint(i)
			}
		}
		return k
	}}
	var o []func() *keyed
	for i := range key {
		o = append(o, func() *keyed {
			h := hamt.New[int]()
			return &keyed{name: fmt.Sprintf("keys of kind %d", i), insert: func(k int) { h.Insert(key[i](k), 3*k) },
				remove: func(k int) bool { return h.Erase(key[i](k)) },
				get:    func(k int) (int, bool) { v, err := h.Get(key[i](k)); return v, err == nil },
				each:   func(f func(k, v int) bool) { h.Traversal(func(x hamt.Key, v int) bool { return f(num[i](x), v) }) },
				size:   nil, keys: func() int { return len(h.Keys()) }}
		})
	}
	return o
}

func largeKeyedEnum(c Ctx, prop string) *core.Enum {
	mks := largeKeyed(prop)
	n := largeSize(c)
	if c.Thorough() {
		n = 200000
	}
	if prop == "P16" {
		// with ten levels, and with levels which happen to go with the order of
		// insertion, the work on a skip list grows with the square of n
		n = 66000
	}
	return &core.Enum{Name: "large contents", N: int64(len(mks) * largeOrders), Chunk: 1,
		Show: func(i int64) string {
			return fmt.Sprintf("%s, %d keys inserted %s", mks[i/largeOrders]().name, n, largeOrderNames[i%largeOrders])
		},
		Run: func(w *core.Worker, i int64) (int64, error) {
			s := mks[i/largeOrders]()
			n := n
			switch s.name {
			case "maximum level 1":
				n = 3000 // a linked list
			case "maximum level 64":
				n = 5000
			default:
				if !c.Thorough() && prop == "P16" && i%largeOrders%4 > 0 {
					return 0, nil
				}
			}
			in := make([]bool, n)
			size := 0
			ops := int64(0)
			look := func() error {
				w.Tick()
				seen := make([]bool, n)
				was := -1
				count := 0
				var bad error
				s.each(func(k, v int) bool {
					if k < 0 || k >= n || !in[k] || seen[k] || v != 3*k || s.sorted && k <= was {
						bad = errf("entry %d of the traversal is %d: %d", count, k, v)
						return false
					}
					seen[k] = true
					was = k
					count++
					return true
				})
				return first(bad, want("entries in the traversal", count, size), want("keys", s.keys(), size))
			}
			step := func(k int) error {
				if ops++; ops&0xff == 0 {
					w.Tick()
				}
				if s.size != nil {
					if g := s.size(); g != size {
						return errf("size %d, want %d", g, size)
					}
				}
				if v, ok := s.get(k); ok != in[k] || ok && v != 3*k {
					return errf("Get(%d) = %d, %v with %d keys", k, v, ok, size)
				}
				if power(size) {
					return look()
				}
				return nil
			}
			for _, k := range largeOrder(int(i%largeOrders), n) {
				s.insert(k)
				in[k] = true
				size++
				if err := step(k); err != nil {
					return ops, errf("key %d inserted: %w", k, err)
				}
			}
			for k := 0; k < n; k++ {
				if v, ok := s.get(k); !ok || v != 3*k {
					return ops, errf("Get(%d) = %d, %v with all %d keys", k, v, ok, size)
				}
			}
			for _, k := range largeOrder(int(i*5+2)%largeOrders, n) {
				if !s.remove(k) {
					return ops, errf("key %d is not there", k)
				}
				in[k] = false
				size--
				if err := step(k); err != nil {
					return ops, errf("key %d removed: %w", k, err)
				}
			}
			return ops, look()
		}}
}

func largeSetAlgEnum(c Ctx) *core.Enum {
	n := largeSize(c)
	ops := []string{"Intersect", "Union", "Diff"}
	// which elements the sets have
	kinds := []struct {
		name string
		a, b func(k int) bool
	}{
		{"the same", func(k int) bool { return true }, func(k int) bool { return true }},
		{"even and odd", func(k int) bool { return k%2 == 0 }, func(k int) bool { return k%2 == 1 }},
		{"lower and upper half", func(k int) bool { return k < n/2 }, func(k int) bool { return k >= n/2 }},
		{"overlapping thirds", func(k int) bool { return k < 2*n/3 }, func(k int) bool { return k >= n/3 }},
		{"all and every seventh", func(k int) bool { return true }, func(k int) bool { return k%7 == 3 }},
		{"all and one", func(k int) bool { return true }, func(k int) bool { return k == n/2 }},
		{"all but the last and all", func(k int) bool { return k < n-1 }, func(k int) bool { return true }},
		{"all and none", func(k int) bool { return true }, func(k int) bool { return false }},
	}
	return &core.Enum{Name: "large sets", N: int64(len(kinds) * 2 * 3), Chunk: 1,
		Show: func(i int64) string { return fmt.Sprintf("%s of %s, order %d", ops[i%3], kinds[i/6].name, i/3%2) },
		Run: func(w *core.Worker, i int64) (int64, error) {
			calls := int64(0)
			cmp := func(a, b int) int {
				if calls++; calls&0xff == 0 {
					w.Tick()
				}
				return a - b
			}
			inA, inB := kinds[i/6].a, kinds[i/6].b
			if i/3%2 == 1 {
				inA, inB = inB, inA
			}
			a, b := set.New[int](cmp), set.New[int](cmp)
			for k := 0; k < n; k++ {
				if inA(k) {
					a.Insert(k)
				}
				if inB(k) {
					b.Insert(k)
				}
			}
			var r *set.Set[int]
			var in func(k int) bool
			switch i % 3 {
			case 0:
				r, in = a.Intersect(b), func(k int) bool { return inA(k) && inB(k) }
			case 1:
				r, in = a.Union(b), func(k int) bool { return inA(k) || inB(k) }
			case 2:
				r, in = a.Diff(b), func(k int) bool { return inA(k) && !inB(k) }
			}
			is := func(what string, s *set.Set[int], in func(k int) bool) error {
				var bad error
				k, count := 0, 0
				s.Traversal(func(g int) bool {
					for k < n && !in(k) {
						k++
					}
					if g != k {
						bad = errf("%s: element %d is %d, want %d", what, count, g, k)
						return false
					}
					k++
					count++
					return true
				})
				for ; k < n && bad == nil; k++ {
					if in(k) {
						bad = errf("%s: %d is missing", what, k)
					}
				}
				return first(bad, want("size of "+what, s.Size(), count))
			}
			return calls, first(is("the result", r, in), is("the first set", a, inA), is("the second set", b, inB))
		}}
}

func largeHeapEnum(c Ctx) *core.Enum {
	kinds := len(largeValNames)
	return &core.Enum{Name: "large contents", N: int64(kinds * 2), Chunk: 1,
		Show: func(i int64) string {
			return fmt.Sprintf("%s, %s", largeValNames[int(i)%kinds], []string{"pushed", "made a heap at once"}[int(i)/kinds])
		},
		Run: func(w *core.Worker, i int64) (int64, error) {
			vs := largeVals(int(i)%kinds, largeSize(c))
			h := &lheap{w: w}
			if int(i)/kinds == 0 {
				for _, v := range vs {
					heap.Push[int](h, v)
				}
			} else {
				h.s = slices.Clone(vs)
				heap.Init[int](h)
			}
			ok := func(what string) error {
				for k := 1; k < len(h.s); k++ {
					if h.s[k] < h.s[(k-1)/2] {
						return errf("%s: element %d of %d is less than its parent", what, k, len(h.s))
					}
				}
				return nil
			}
			if err := ok("built"); err != nil {
				return h.ops, err
			}
			have := slices.Clone(vs)
			slices.Sort(have)
			for _, p := range places(len(vs)) {
				for _, to := range []int{-5, 1 << 40, vs[p]} {
					was := h.s[p]
					h.s[p] = to
					heap.Fix[int](h, p)
					q, _ := slices.BinarySearch(have, was)
					have = slices.Delete(have, q, q+1)
					q, _ = slices.BinarySearch(have, to)
					have = slices.Insert(have, q, to)
					if err := ok(fmt.Sprintf("after Fix at %d", p)); err != nil {
						return h.ops, err
					}
				}
				x := h.s[p]
				if g := heap.Remove[int](h, p); g != x {
					return h.ops, errf("Remove(%d) = %d, want %d", p, g, x)
				}
				q, _ := slices.BinarySearch(have, x)
				have = slices.Delete(have, q, q+1)
				if err := ok(fmt.Sprintf("after Remove(%d)", p)); err != nil {
					return h.ops, err
				}
				x++
				heap.Push[int](h, x)
				q, _ = slices.BinarySearch(have, x)
				have = slices.Insert(have, q, x)
			}
			for k, v := range have {
				if g := heap.Pop[int](h); g != v {
					return h.ops, errf("Pop() number %d = %d, want %d", k, g, v)
				}
			}
			return h.ops, want("elements left", len(h.s), 0)
		}}
}

type lheap struct {
	s   []int
	w   *core.Worker
	ops int64
}

func (h *lheap) Len() int { return len(h.s) }
func (h *lheap) Less(i, j int) bool {
	if h.ops++; h.ops&0xff == 0 {
		h.w.Tick()
	}
	return h.s[i] < h.s[j]
}
func (h *lheap) Swap(i, j int) { h.s[i], h.s[j] = h.s[j], h.s[i] }
func (h *lheap) Push(x int)    { h.s = append(h.s, x) }
func (h *lheap) Pop() int {
	x := h.s[len(h.s)-1]
	h.s = h.s[:len(h.s)-1]
	return x
}

func largePQEnum(c Ctx) *core.Enum {
	kinds := len(largeValNames)
	return &core.Enum{Name: "large contents", N: int64(kinds), Chunk: 1,
		Show: func(i int64) string { return largeValNames[int(i)%kinds] },
		Run: func(w *core.Worker, i int64) (int64, error) {
			vs := largeVals(int(i)%kinds, largeSize(c))
			ops := int64(0)
			q := priorityqueue.New[lv](func(a, b lv) int {
				if ops++; ops&0xff == 0 {
					w.Tick()
				}
				return a.k - b.k
			})
			for k, v := range vs {
				q.Push(lv{v, k})
				if g := q.Size(); g != k+1 {
					return ops, errf("Size() = %d, want %d", g, k+1)
				}
			}
			sorted := slices.Clone(vs)
			slices.Sort(sorted)
			seen := make([]bool, len(vs))
			for k, v := range sorted {
				t := q.Top()
				x := q.Pop()
				if x != t || x.k != v || x.id < 0 || seen[x.id] || vs[x.id] != x.k {
					return ops, errf("Pop() number %d = %v after Top() = %v, want priority %d", k, x, t, v)
				}
				seen[x.id] = true
			}
			return ops, want("Empty()", q.Empty(), true)
		}}
}

// largeHandles: nodes of a tree stay on their entries while others go.
func largeHandles(c Ctx) *core.Enum {
	n := largeSize(c)
	return &core.Enum{Name: "large contents", N: largeOrders * largeOrders, Chunk: 1,
		Show: func(i int64) string {
			return fmt.Sprintf("%d keys inserted %s, erased %s", n, largeOrderNames[i%largeOrders], largeOrderNames[i/largeOrders])
		},
		Run: func(w *core.Worker, i int64) (int64, error) {
			if !c.Thorough() && (i%largeOrders+2*(i/largeOrders))%4 != 0 {
				return 0, nil
			}
			ops := int64(0)
			t := rbtree.New[int, int](func(a, b int) int {
				if ops++; ops&0xff == 0 {
					w.Tick()
				}
				return a - b
			})
			nodes := make([]*rbtree.Node[int, int], n)
			for _, k := range largeOrder(int(i%largeOrders), n) {
				t.Insert(k, 3*k)
				nodes[k] = t.FindNode(k)
			}
			look := func(left int) error {
				w.Tick()
				var was *rbtree.Node[int, int]
				for k, x := range nodes {
					if x == nil {
						continue
					}
					if x.Key() != k || x.Value() != 3*k || x.Prev() != was || was != nil && was.Next() != x {
						return errf("with %d keys left the node of key %d holds %d: %d, or is not next to the one before", left, k, x.Key(), x.Value())
					}
					was = x
				}
				return nil
			}
			if err := look(n); err != nil {
				return ops, err
			}
			for j, k := range largeOrder(int(i/largeOrders), n) {
				t.Delete(nodes[k])
				nodes[k] = nil
				if power(n - 1 - j) {
					if err := look(n - 1 - j); err != nil {
						return ops, err
					}
				}
			}
			return ops, want("size", t.Size(), 0)
		}}
}

func largeCopies(c Ctx) *core.Enum {
	n := largeSize(c)
	return &core.Enum{Name: "large contents", N: 4, Chunk: 1,
		Show: func(i int64) string {
			return []string{"a vector and its copy", "an array and its copy", "a list copied behind another", "a list copied in front of another"}[i]
		},
		Run: func(w *core.Worker, i int64) (int64, error) {
			w.Tick()
			if i >= 2 {
				a, b := bidlist.New[int](), bidlist.New[int]()
				for k := 0; k < n; k++ {
					a.PushBack(k)
				}
				b.PushBack(-1)
				if i == 2 {
					b.PushBackList(a)
				} else {
					b.PushFrontList(a)
				}
				if i == 2 {
					if err := want("first", b.PopFront(), -1); err != nil {
						return 1, err
					}
				} else if err := want("last", b.PopBack(), -1); err != nil {
					return 1, err
				}
				if b.Len() != n || a.Len() != n {
					return 1, errf("lengths %d and %d, want %d", a.Len(), b.Len(), n)
				}
				for x, y, k := a.FrontNode(), b.FrontNode(), 0; k < n; x, y, k = x.Next(), y.Next(), k+1 {
					if x.Value != k || y.Value != k || x == y {
						return 1, errf("element %d is %d in the original and %d in the copy", k, x.Value, y.Value)
					}
					y.Value = -k
				}
				for x, k := a.FrontNode(), 0; k < n; x, k = x.Next(), k+1 {
					if x.Value != k {
						return 1, errf("element %d of the original has changed to %d", k, x.Value)
					}
				}
				return int64(n), nil
			}
			at, set := func(k int) int { return 0 }, func(k, v int) {}
			at2 := at
			if i == 0 {
				a := vector.New[int]()
				for k := 0; k < n; k++ {
					a.PushBack(k)
				}
				b := vector.NewFromVector(a)
				if err := want("size of the copy", b.Size(), n); err != nil {
					return 1, err
				}
				at, set, at2 = a.At, b.SetAt, b.At
				b.PushBack(-9)
				a.PushBack(-10)
				if err := first(want("back of the copy", b.Back(), -9), want("back of the original", a.Back(), -10)); err != nil {
					return 1, err
				}
			} else {
				a := array.New[int](n)
				for k := 0; k < n; k++ {
					a.Set(k, k)
				}
				b := array.NewFromArray(a)
				at, set, at2 = a.At, b.Set, b.At
			}
			for k := 0; k < n; k++ {
				if at2(k) != k {
					return 1, errf("element %d of the copy is %d", k, at2(k))
				}
				set(k, -k-1)
			}
			for k := 0; k < n; k++ {
				if at(k) != k {
					return 1, errf("element %d of the original has changed to %d", k, at(k))
				}
			}
			return int64(n), nil
		}}
}

func largeRing(c Ctx) *core.Enum {
	n := c.Pick(7000, 30000)
	return &core.Enum{Name: "rings of many nodes against rings made of the members only", N: 3, Chunk: 1,
		Show: func(i int64) string { return fmt.Sprintf("%d nodes added %s", n, largeOrderNames[i]) },
		Run: func(w *core.Worker, i int64) (int64, error) {
			a, b := ketama.New(), ketama.New()
			name := func(k int) string { return fmt.Sprintf("node-%d", k) }
			ops := int64(0)
			for _, k := range largeOrder(int(i), n) {
				a.Add(name(k))
				if ops++; ops&0xf == 0 {
					w.Tick()
				}
			}
			keep := func(k int) bool { return k%5 == int(i) }
			var all []string
			for k := 0; k < n; k++ {
				if !keep(k) {
					a.Remove(name(k))
				} else {
					all = append(all, name(k))
				}
				if ops++; ops&0xf == 0 {
					w.Tick()
				}
			}
			b.Add(all...)
			w.Tick()
			for k := 0; k < n; k++ {
				key := fmt.Sprint("key", k)
				x, ok := a.Get(key)
				y, ok2 := b.Get(key)
				if ok != ok2 || x != y || !ok {
					return ops, errf("%s is on %q (%v), on %q (%v) in a ring with the same members", key, x, ok, y, ok2)
				}
				if ops++; ops&0xf == 0 {
					w.Tick()
				}
			}
			return ops, nil
		}}
}

func init() {
	add := func(prop string, f func(c Ctx) []any) {
		extend(prop, func(c Ctx) []any {
			if c.Variant != "plain" {
				return nil
			}
			return f(c)
		})
	}
	for _, p := range []string{"P01", "P02", "P04", "P05", "P06"} {
		add(p, func(c Ctx) []any { return []any{largeSeqEnum(c, p)} })
	}
	tree := func() *ordAd { return newTreeAd(0, false) }
	mm := func() *ordAd { return newMultiMapAd(0, false) }
	ms := func() *ordAd { return newMultiSetAd(0, false) }
	add("P07", func(c Ctx) []any { return []any{largePQEnum(c)} })
	add("P08", func(c Ctx) []any { return []any{largeHeapEnum(c)} })
	add("P09", func(c Ctx) []any {
		return []any{largeOrdEnum(c, "red-black tree", tree), largeEqualEnum(c, "red-black tree", tree)}
	})
	add("P10", func(c Ctx) []any {
		return []any{largeOrdEnum(c, "red-black tree", func() *ordAd {
			a, v := newTreeAd(0, false), newRbView()
			t, own := a.obj.(*rbtree.RbTree[Key, Val]), a.valid
			a.valid = func() error {
				if t != nil && v.ok {
					if _, ok := v.rules(*(**treeNode)(unsafe.Add(unsafe.Pointer(t), v.root)), true); !ok {
						return errf("the tree of %d entries breaks the red-black rules", t.Size())
					}
				}
				return own()
			}
			return a
		})}
	})
	add("P11", func(c Ctx) []any { return []any{largeHandles(c)} })
	add("P12", func(c Ctx) []any { return []any{largeOrdEnum(c, "map", func() *ordAd { return newMapAd(0, false) })} })
	add("P13", func(c Ctx) []any { return []any{largeEqualEnum(c, "multimap", mm), largeOrdEnum(c, "multimap", mm)} })
	add("P14", func(c Ctx) []any {
		return []any{largeOrdEnum(c, "set", func() *ordAd { return newSetAd(0, false) }), largeEqualEnum(c, "multiset", ms), largeOrdEnum(c, "multiset", ms)}
	})
	add("P15", func(c Ctx) []any { return []any{largeSetAlgEnum(c)} })
	for _, p := range []string{"P16", "P17"} {
		add(p, func(c Ctx) []any { return []any{largeKeyedEnum(c, p)} })
	}
	add("P20", func(c Ctx) []any { return []any{largeRing(c)} })
	add("P23", func(c Ctx) []any { return []any{largeIterEnum(c)} })
	for _, p := range []string{"P24", "P25"} {
		add(p, func(c Ctx) []any {
			if p == "P25" {
				return []any{largeSortEnum(c, p), everyNthEnum(c)}
			}
			return []any{largeSortEnum(c, p)}
		})
	}
	add("P26", func(c Ctx) []any { return []any{largeSearchEnum(c)} })
	add("P27", func(c Ctx) []any { return []any{largePermEnum(c)} })
	add("P28", func(c Ctx) []any { return []any{largeRangeEnum(c)} })
	add("P35", func(c Ctx) []any { return []any{largeCopies(c)} })
}
