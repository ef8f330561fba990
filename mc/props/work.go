package props

import (
	"fmt"
	"slices"

	"github.com/liyue201/gostl/algorithm"
	"github.com/liyue201/gostl/algorithm/sort"
	"github.com/liyue201/gostl/ds/array"
	"github.com/liyue201/gostl/ds/bitmap"
	bloom "github.com/liyue201/gostl/ds/bloomfilter"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/hamt"
	"github.com/liyue201/gostl/ds/heap"
	"github.com/liyue201/gostl/ds/ketama"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	treemap "github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/priorityqueue"
	"github.com/liyue201/gostl/ds/queue"
	"github.com/liyue201/gostl/ds/rbtree"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/ds/skiplist"
	"github.com/liyue201/gostl/ds/slice"
	"github.com/liyue201/gostl/ds/stack"
	"github.com/liyue201/gostl/ds/vector"
	"github.com/liyue201/gostl/utils/iterator"

	"verifmc/core"
	"verifmc/vrand"
	"verifmc/vwork"
)

// How much work the operations do: the code is built so that it counts its statements and the elements it copies, and
// what a container does per operation when large is compared with what it does, by the same history, when small.

type workKind struct {
	name string
	log  bool // logarithmic, not constant
	mk   func() *workStore
}

type workStore struct {
	n    func() int
	acts []act
	top  int // how large it gets at most; 0 means as large as others
}

func nonempty(n func() int, f func()) func() {
	return func() {
		if n() > 0 {
			f()
		}
	}
}

func workOrd(n func() int, ins, del, get func(k int), lo, hi func() int, more ...act) *workStore {
	f := &fresh{up: 1 << 30}
	absent := -1 << 40
	return &workStore{n: n, acts: append([]act{
		{"insert above all", 1, func() { ins(f.above()) }},
		{"insert below all", 1, func() { ins(f.below()) }},
		{"insert amid", 1, func() { ins(f.amid()) }},
		{"erase the smallest", -1, nonempty(n, func() { del(lo()) })},
		{"erase the greatest", -1, nonempty(n, func() { del(hi()) })},
		{"look up one amid", 0, func() { get(f.amid()) }},
		{"look up and erase an absent one", 0, func() { absent--; get(absent); del(absent) }},
	}, more...)}
}

var workKinds = []workKind{
	{"deque", false, func() *workStore {
		d := deque.New[int]()
		k := 0
		return &workStore{n: d.Size, acts: []act{
			{"PushBack", 1, func() { k++; d.PushBack(k) }},
			{"PushFront", 1, func() { k++; d.PushFront(k) }},
			{"PopBack", -1, nonempty(d.Size, func() { d.PopBack() })},
			{"PopFront", -1, nonempty(d.Size, func() { d.PopFront() })},
			{"At, Set, Front, Back", 0, nonempty(d.Size, func() { d.At(d.Size() / 2); d.Set(d.Size()/3, k); d.Front(); d.Back(); d.Empty() })},
			{"iterators", 0, nonempty(d.Size, func() {
				it := d.IterAt(d.Size() / 2)
				it.Value()
				it.Next()
				it.IsValid()
				it.SetValue(k)
				d.Begin().Equal(d.End())
				d.First().Value()
				d.Last().Prev()
			})},
		}}
	}},
	{"vector", false, func() *workStore {
		v := vector.New[int]()
		k := 0
		return &workStore{n: v.Size, acts: []act{
			{"PushBack", 1, func() { k++; v.PushBack(k) }},
			{"PopBack", -1, nonempty(v.Size, func() { v.PopBack() })},
			{"At, SetAt, Front, Back", 0, nonempty(v.Size, func() {
				v.At(v.Size() / 2)
				v.SetAt(v.Size()/3, k)
				v.Front()
				v.Back()
				v.Empty()
				v.Capacity()
				v.Data()
			})},
			{"Reserve nothing", 0, func() { v.Reserve(v.Size()) }},
			{"iterators", 0, nonempty(v.Size, func() {
				it := v.IterAt(v.Size() / 2)
				it.Value()
				it.Next()
				it.IsValid()
				it.SetValue(k)
				v.Begin().Equal(v.End())
				v.First().Value()
				v.Last().Prev()
			})},
		}}
	}},
	{"bidirectional list", false, func() *workStore {
		l := bidlist.New[int]()
		k := 0
		return &workStore{n: l.Len, acts: []act{
			{"PushBack", 1, func() { k++; l.PushBack(k) }},
			{"PushFront", 1, func() { k++; l.PushFront(k) }},
			{"insert beside the ends", 2, nonempty(l.Len, func() { l.InsertAfter(k, l.FrontNode()); l.InsertBefore(k, l.BackNode()) })},
			{"PopBack", -1, nonempty(l.Len, func() { l.PopBack() })},
			{"PopFront", -1, nonempty(l.Len, func() { l.PopFront() })},
			{"remove the last node", -1, nonempty(l.Len, func() { l.Remove(l.BackNode()) })},
			{"Front, Back, moves", 0, nonempty(l.Len, func() {
				l.Front()
				l.Back()
				l.Size()
				l.Empty()
				l.MoveToFront(l.BackNode())
				l.MoveToBack(l.FrontNode())
				l.MoveAfter(l.BackNode(), l.FrontNode())
			})},
			{"iterator", 0, nonempty(l.Len, func() {
				it := bidlist.NewIterator[int](l.FrontNode())
				it.Value()
				it.Next()
				it.IsValid()
			})},
		}}
	}},
	{"singly linked list", false, func() *workStore {
		l := simplelist.New[int]()
		k := 0
		return &workStore{n: l.Len, acts: []act{
			{"PushBack", 1, func() { k++; l.PushBack(k) }},
			{"PushFront", 1, func() { k++; l.PushFront(k) }},
			{"insert after both ends", 2, nonempty(l.Len, func() { l.InsertAfter(k, l.FrontNode()); l.InsertAfter(k, l.BackNode()) })},
			{"remove the first", -1, nonempty(l.Len, func() { l.Remove(nil, l.FrontNode()) })},
			{"remove the second", -1, nonempty(l.Len, func() {
				if n := l.FrontNode(); n.Next() != nil {
					l.Remove(n, n.Next())
				} else {
					l.Remove(nil, n)
				}
			})},
			{"moves", 0, nonempty(l.Len, func() {
				if n := l.FrontNode(); n.Next() != nil {
					l.MoveToBack(n, n.Next())
					l.MoveToFront(n, n.Next())
					l.MoveToBack(nil, l.FrontNode())
				}
			})},
		}}
	}},
	{"queue", false, func() *workStore { return workQueue(queue.New[int]()) }},
	{"queue on a list", false, func() *workStore {
		return workQueue(queue.New[int](queue.WithListContainer[int](), queue.WithGoroutineSafe[int]()))
	}},
	{"stack", false, func() *workStore { return workStack(stack.New[int]()) }},
	{"stack on a list", false, func() *workStore {
		return workStack(stack.New[int](stack.WithListContainer[int](), stack.WithGoroutineSafe[int]()))
	}},
	{"priority queue", true, func() *workStore {
		q := priorityqueue.New[int](intCompare)
		f := &fresh{up: 1 << 30}
		return &workStore{n: q.Size, acts: []act{
			{"push above all", 1, func() { q.Push(f.above()) }},
			{"push below all", 1, func() { q.Push(f.below()) }},
			{"push amid", 1, func() { q.Push(f.amid()) }},
			{"pop", -1, nonempty(q.Size, func() { q.Pop() })},
			{"Top", 0, nonempty(q.Size, func() { q.Top(); q.Empty() })},
		}}
	}},
	{"heap", true, func() *workStore {
		h := &workHeap{}
		f := &fresh{up: 1 << 30}
		n := func() int { return len(h.a) }
		return &workStore{n: n, acts: []act{
			{"Push above all", 1, func() { heap.Push[int](h, f.above()) }},
			{"Push below all", 1, func() { heap.Push[int](h, f.below()) }},
			{"Push amid", 1, func() { heap.Push[int](h, f.amid()) }},
			{"Pop", -1, nonempty(n, func() { heap.Pop[int](h) })},
			{"Remove amid", -1, nonempty(n, func() { heap.Remove[int](h, n()/2) })},
			{"Fix", 0, nonempty(n, func() { h.a[n()/3] = f.amid(); heap.Fix[int](h, n()/3) })},
		}}
	}},
	{"red-black tree", true, func() *workStore {
		t := rbtree.New[int, int](intCompare)
		return workOrd(t.Size, func(k int) { t.Insert(k, k) }, func(k int) {
			if n := t.FindNode(k); n != nil {
				t.Delete(n)
			}
		}, func(k int) { t.FindLowerBoundNode(k); t.FindUpperBoundNode(k); t.Find(k) }, func() int { return t.First().Key() }, func() int { return t.Last().Key() },
			act{"Begin, RBegin, iterators", 0, nonempty(t.Size, func() { t.Begin(); t.RBegin(); t.IterFirst().Next(); t.IterLast().Prev(); t.Empty() })})
	}},
	{"map", true, func() *workStore {
		t := treemap.New[int, int](intCompare, treemap.WithGoroutineSafe())
		return workOrd(t.Size, func(k int) { t.Insert(k, k) }, t.Erase, func(k int) { t.Get(k); t.LowerBound(k); t.UpperBound(k) }, func() int { return t.First().Key() }, func() int { return t.Last().Key() },
			act{"erase by iterator", -1, nonempty(t.Size, func() { t.EraseIter(t.Find(t.Last().Key())) })},
			act{"Contains, Begin, iterators", 0, nonempty(t.Size, func() { t.Contains(3); t.Begin().Next(); t.Last().Prev(); t.Find(7).IsValid() })})
	}},
	{"multimap", true, func() *workStore {
		t := treemap.NewMultiMap[int, int](intCompare)
		return workOrd(t.Size, func(k int) { t.Insert(k, k) }, t.Erase, func(k int) { t.Get(k); t.LowerBound(k); t.UpperBound(k) }, func() int { return t.First().Key() }, func() int { return t.Last().Key() },
			act{"insert the same key", 2, func() { t.Insert(0, 0) }},
			act{"Contains, Begin, iterators", 0, nonempty(t.Size, func() { t.Contains(3); t.Begin().Next(); t.Last().Prev(); t.Find(7).IsValid() })})
	}},
	{"set", true, func() *workStore {
		t := set.New[int](intCompare)
		return workOrd(t.Size, t.Insert, t.Erase, func(k int) { t.Find(k); t.LowerBound(k); t.UpperBound(k) }, func() int { return t.First().Value() }, func() int { return t.Last().Value() },
			act{"Contains, Begin, iterators", 0, nonempty(t.Size, func() { t.Contains(3); t.Begin().Next(); t.Last().Prev(); t.Find(7).IsValid() })})
	}},
	{"multiset", true, func() *workStore {
		t := set.NewMultiSet[int](intCompare, set.WithGoroutineSafe())
		return workOrd(t.Size, t.Insert, t.Erase, func(k int) { t.Find(k); t.LowerBound(k); t.UpperBound(k) }, func() int { return t.First().Value() }, func() int { return t.Last().Value() },
			act{"insert the same element", 2, func() { t.Insert(0) }},
			act{"Contains, Begin, iterators", 0, nonempty(t.Size, func() { t.Contains(3); t.Begin().Next(); t.Last().Prev(); t.Find(7).IsValid() })})
	}},
	{"skip list", true, func() *workStore {
		vrand.OnNew(func(c *vrand.Chosen) { c.Seed(1) })
		l := skiplist.New[int, int](intCompare, skiplist.WithMaxLevel(20))
		f := &fresh{up: 1 << 30}
		// even keys from low to high, odd ones amid them in the order of their coming
		var low, high, odd []int
		pop := func(a, b *[]int) int {
			if len(*a) == 0 { // half of the others change sides
				h := (len(*b) + 1) / 2
				*a = slices.Clone((*b)[:h])
				slices.Reverse(*a)
				*b = slices.Clone((*b)[h:])
			}
			k := (*a)[len(*a)-1]
			*a = (*a)[:len(*a)-1]
			return k
		}
		even := func() int { return len(low) + len(high) }
		return &workStore{n: l.Len, acts: []act{
			{"insert above all", 1, func() { k := 2 * f.above(); high = append(high, k); l.Insert(k, k) }},
			{"insert below all", 1, func() { k := 2 * f.below(); low = append(low, k); l.Insert(k, k) }},
			{"insert amid", 1, func() { k := 2*f.amid() + 1; odd = append(odd, k); l.Insert(k, k) }},
			{"remove the smallest", -1, nonempty(even, func() { l.Remove(pop(&low, &high)) })},
			{"remove the greatest", -1, nonempty(even, func() { l.Remove(pop(&high, &low)) })},
			{"remove one amid", -1, nonempty(func() int { return len(odd) }, func() { l.Remove(odd[0]); odd = odd[1:] })},
			{"Get one amid", 0, func() { l.Get(2 * f.amid()) }},
			{"Get and Remove an absent one", 0, func() { k := 1<<40 + f.amid(); l.Get(k); l.Remove(k); l.Len() }},
		}}
	}},
	{"hash trie", true, func() *workStore {
		h := hamt.New[int]()
		first, last, absent := 0, 0, -1
		key := func(k int) hamt.Key { return hamt.Key(fmt.Sprint(k)) }
		n := func() int { return last - first }
		return &workStore{n: n, acts: []act{
			{"insert", 1, func() { h.Insert(key(last), last); last++ }},
			{"insert one again", 0, nonempty(n, func() { h.Insert(key((first+last)/2), last) })},
			{"erase the oldest", -1, nonempty(n, func() { h.Erase(key(first)); first++ })},
			{"erase the newest", -1, nonempty(n, func() { last--; h.Erase(key(last)) })},
			{"look up", 0, func() { h.Get(key((first + last) / 2)) }},
			{"look up and erase an absent one", 0, func() { absent--; h.Get(key(absent)); h.Erase(key(absent)) }},
		}}
	}},
	{"ring", true, func() *workStore {
		r := ketama.New(ketama.WithReplicas(4))
		first, last, absent := 0, 0, -1
		name := func(i int) string { return fmt.Sprintf("node %d", i) }
		n := func() int { return last - first }
		return &workStore{n: n, top: 8000, acts: []act{
			{"add", 1, func() { r.Add(name(last)); last++ }},
			{"add one again", 0, nonempty(n, func() { r.Add(name(last - 1)) })},
			{"remove the oldest", -1, nonempty(n, func() { r.Remove(name(first)); first++ })},
			{"remove the newest", -1, nonempty(n, func() { last--; r.Remove(name(last)) })},
			{"remove an absent one", 0, func() { absent--; r.Remove(name(absent)) }},
			{"look up", 0, func() { absent--; r.Get(name(absent)); r.Empty() }},
		}}
	}},
}

type workHeap struct{ a []int }

func (h *workHeap) Len() int           { return len(h.a) }
func (h *workHeap) Less(i, j int) bool { return h.a[i] < h.a[j] }
func (h *workHeap) Swap(i, j int)      { vwork.P(); h.a[i], h.a[j] = h.a[j], h.a[i] }
func (h *workHeap) Push(x int)         { h.a = append(h.a, x) }
func (h *workHeap) Pop() int {
	x := h.a[len(h.a)-1]
	h.a = h.a[:len(h.a)-1]
	return x
}

func workQueue(q *queue.Queue[int]) *workStore {
	k := 0
	return &workStore{n: q.Size, acts: []act{
		{"Push", 1, func() { k++; q.Push(k) }},
		{"Pop", -1, nonempty(q.Size, func() { q.Pop() })},
		{"Front, Back", 0, nonempty(q.Size, func() { q.Front(); q.Back(); q.Empty() })},
	}}
}

func workStack(q *stack.Stack[int]) *workStore {
	k := 0
	return &workStore{n: q.Size, acts: []act{
		{"Push", 1, func() { k++; q.Push(k) }},
		{"Pop", -1, nonempty(q.Size, func() { q.Pop() })},
		{"Top", 0, nonempty(q.Size, func() { q.Top(); q.Empty() })},
	}}
}

// workLimit is what may be done when large given what is done when small.
func workLimit(small float64, log bool) float64 {
	if log {
		return 6*small + 96
	}
	return 4*small + 96
}

func workWord(acts []act, w []int) string {
	s := ""
	for i, x := range w {
		if i > 0 {
			s += ", "
		}
		s += acts[x].name
	}
	return s
}

func workNet(acts []act, w []int) (d int) {
	for _, x := range w {
		d += acts[x].d
	}
	return d
}

// phases: each word of at most two operations is repeated many times, then each other one, then the first one again.
func workPhases(kind, small, large, length int) any {
	k := workKinds[kind]
	acts := k.mk().acts
	var up [][]int
	for _, w := range words(len(acts), 2) {
		if workNet(acts, w) > 0 {
			up = append(up, w)
		}
	}
	all := words(len(acts), 2)
	type pair struct{ u, d []int }
	var pairs []pair
	for _, d := range all {
		for _, u := range up {
			if len(u)+len(d) <= length {
				pairs = append(pairs, pair{u, d})
			}
		}
	}
	if top := k.mk().top; top > 0 {
		large = min(large, top)
	}
	return &core.Enum{Name: "phases of operations on a " + k.name, N: int64(len(pairs)), Chunk: 1, Show: func(i int64) string {
		return fmt.Sprintf("%s: repeat %q, then %q, then the former again; %d and %d operations each time", k.name, workWord(acts, pairs[i].u), workWord(acts, pairs[i].d), small, large)
	}, Run: func(w *core.Worker, i int64) (int64, error) {
		u, d := pairs[i].u, pairs[i].d
		run := func(n int) (o [3]float64) {
			s := k.mk()
			for p, word := range [][]int{u, d, u} {
				at := vwork.N
				for j := 0; j < n; j++ {
					s.acts[word[j%len(word)]].f()
				}
				o[p] = float64(vwork.N-at) / float64(n)
				w.Tick()
			}
			return o
		}
		a := run(small)
		b := run(large)
		// the phases share what they have to pay: what one has put off may fall due in the next one
		am := max(a[0], a[1], a[2])
		for p := range b {
			if limit := workLimit(am, k.log); b[p] > limit {
				return int64(3 * (small + large)), errf("in phase %d an operation does %.0f steps on average when %d operations are done in each phase, although only %.0f when %d are; at most %.0f are allowed", p+1, b[p], large, am, small, limit)
			}
		}
		return int64(3 * (small + large)), nil
	}}
}

// workWalk grows a container by one operation and lessens it by another one; at every size on the way each short word
// that leaves the size as it is gets repeated.
func workWalk(kind, dense, top, length int) any {
	k := workKinds[kind]
	s0 := k.mk()
	acts := s0.acts
	if s0.top > 0 {
		top = min(top, s0.top)
	}
	var ups, downs []int
	for i, a := range acts {
		if a.d > 0 {
			ups = append(ups, i)
		}
		if a.d < 0 {
			downs = append(downs, i)
		}
	}
	var flat [][]int
	for _, w := range words(len(acts), length) {
		if workNet(acts, w) == 0 {
			flat = append(flat, w)
		}
	}
	var sizes []int
	for n := 1; n <= top; n++ {
		switch {
		case n <= dense, !k.log && n <= 64*dense && (n+1)%128 <= 2, near2(n):
			sizes = append(sizes, n)
		}
	}
	const batch = 128
	return &core.Enum{Name: "operations at every size of a " + k.name, N: int64(len(ups) * len(downs)), Chunk: 1, Show: func(i int64) string {
		return fmt.Sprintf("%s: grow by %s until size %d, lessen by %s; at %d sizes on the way up and down, each of %d words that leave the size as it is, repeated", k.name, acts[ups[int(i)%len(ups)]].name, top, acts[downs[int(i)/len(ups)]].name, len(sizes), len(flat))
	}, Run: func(w *core.Worker, i int64) (int64, error) {
		s := k.mk()
		u, d := ups[int(i)%len(ups)], downs[int(i)/len(ups)]
		ops := int64(0)
		ref := make([]float64, len(flat))
		ask := func(n int) error {
			if s.n() > n+64 || s.n() < n-64 || n > 40 && s.n() < 20 {
				return nil // operations that leave the size as it is only by and large
			}
			w.Tick()
			for f, word := range flat {
				var least float64
				for b := 0; b < 3; b++ {
					at := vwork.N
					for j := 0; j < batch; j++ {
						s.acts[word[j%len(word)]].f()
					}
					ops += batch
					got := float64(vwork.N-at) / batch
					if b == 0 || got < least {
						least = got
					}
					if n > 40 && least <= workLimit(ref[f], k.log) {
						break
					}
				}
				if n <= 40 {
					ref[f] = max(ref[f], least)
				} else if limit := workLimit(ref[f], k.log); least > limit {
					return errf("at size %d, repeating %q takes %.0f steps for an operation, although only %.0f up to size 40; at most %.0f are allowed", s.n(), workWord(acts, word), least, ref[f], limit)
				}
			}
			return nil
		}
		for _, n := range sizes {
			for guard := 0; s.n() < n && guard < 4*top; guard++ {
				s.acts[u].f()
				ops++
			}
			if err := ask(n); err != nil {
				return ops, err
			}
		}
		for j := len(sizes) - 1; j >= 0 && sizes[j] > 40; j-- {
			n := sizes[j]
			for guard := 0; s.n() > n && guard < 4*top; guard++ {
				s.acts[d].f()
				ops++
			}
			if err := ask(n); err != nil {
				return ops, err
			}
		}
		return ops, nil
	}}
}

func near2(n int) bool {
	for p := 64; p <= n+2; p *= 2 {
		for _, q := range []int{p, p + p/2} {
			if n >= q-2 && n <= q+2 {
				return true
			}
		}
	}
	return false
}

// whole are operations on all elements; their work is in proportion to the number of these, give or take a logarithm.
var workWhole = []struct {
	name string
	log  bool
	do   func(n, order int)
}{
	{"deque: traversal, EraseRange, Clear", false, func(n, order int) {
		d := deque.New[int]()
		for _, k := range largeOrder(order, n) {
			d.PushBack(k)
		}
		for it := d.Begin(); it.IsValid(); it.Next() {
			it.Value()
		}
		for it := d.Last(); it.IsValid(); it.Prev() {
			it.Value()
		}
		for i := 0; i < 3; i++ {
			d.Insert(d.Size()/3, i)
			d.EraseAt(d.Size() / 2)
			d.Insert(2*d.Size()/3, i)
		}
		d.EraseRange(n/4, n/2)
		d.EraseRange(n/2, 3*n/4)
		d.Clear()
	}},
	{"vector: copy, traversal, InsertAt, EraseAt, Resize, Clear", false, func(n, order int) {
		v := vector.New[int]()
		for _, k := range largeOrder(order, n) {
			v.PushBack(k)
		}
		c := vector.NewFromVector[int](v)
		for it := v.Begin(); it.IsValid(); it.Next() {
			it.Value()
		}
		for it := v.Last(); it.IsValid(); it.Prev() {
			it.Value()
		}
		for i := 0; i < 3; i++ {
			v.InsertAt(i, i)
			v.EraseAt(v.Size() / 2)
			v.Insert(v.IterAt(v.Size()/3), i)
			v.Erase(v.IterAt(i))
		}
		v.EraseIndexRange(n/4, n/2)
		c.Resize(n / 2)
		c.ShrinkToFit()
		c.Reserve(2 * n)
		c.EraseRange(c.IterAt(1), c.IterAt(n/4))
		c.Clear()
	}},
	{"array: all operations", false, func(n, order int) {
		a := array.New[int](n)
		for i, k := range largeOrder(order, n) {
			a.Set(i, k)
			a.At(i)
		}
		b := array.NewFromArray[int](a)
		a.Fill(3)
		a.SwapArray(b)
		for it := a.Begin(); it.IsValid(); it.Next() {
			it.Value()
		}
	}},
	{"bidirectional list: copies, traversal, Clear", false, func(n, order int) {
		l, m := bidlist.New[int](), bidlist.New[int]()
		for _, k := range largeOrder(order, n) {
			l.PushBack(k)
		}
		m.PushBackList(l)
		m.PushFrontList(l)
		m.PushBackList(m)
		l.Traversal(func(int) bool { return true })
		for it := bidlist.NewIterator(l.FrontNode()); it.IsValid(); it.Next() {
			it.Value()
		}
		l.Clear()
	}},
	{"singly linked list: traversal", false, func(n, order int) {
		l := simplelist.New[int]()
		for _, k := range largeOrder(order, n) {
			l.PushBack(k)
		}
		l.Traversal(func(int) bool { return true })
		for it := simplelist.NewIterator(l.FrontNode()); it.IsValid(); it.Next() {
			it.Value()
		}
	}},
	{"queue and stack: Clear", false, func(n, order int) {
		q, s, t := queue.New[int](), stack.New[int](), stack.New[int](stack.WithListContainer[int]())
		for _, k := range largeOrder(order, n) {
			q.Push(k)
			s.Push(k)
			t.Push(k)
		}
		q.Clear()
		s.Clear()
		t.Clear()
	}},
	{"heap: Init", false, func(n, order int) { heap.Init[int](&workHeap{largeOrder(order, n)}) }},
	{"priority queue: all in, all out, Clear", true, func(n, order int) {
		q := priorityqueue.New[int](intCompare)
		for _, k := range largeOrder(order, n) {
			q.Push(k)
		}
		for i := 0; i < n/2; i++ {
			q.Pop()
		}
		q.Clear()
	}},
	{"red-black tree: all in, traversals, all out", true, func(n, order int) {
		t := rbtree.New[int, int](intCompare)
		for _, k := range largeOrder(order, n) {
			t.Insert(k, k)
		}
		t.Traversal(func(k, v int) bool { return true })
		for it := t.IterFirst(); it.IsValid(); it.Next() {
		}
		for it := t.IterLast(); it.IsValid(); it.Prev() {
		}
		for _, k := range largeOrder((order+1)%largeOrders, n)[:n/2] {
			t.Delete(t.FindNode(k))
		}
		t.Clear()
	}},
	{"red-black tree, map, set: traversals and Clear alone", false, func(n, order int) {
		t, m, s := rbtree.New[int, int](intCompare), treemap.New[int, int](intCompare), set.New[int](intCompare)
		at := vwork.N
		for _, k := range largeOrder(order, n) {
			t.Insert(k, k)
			m.Insert(k, k)
			s.Insert(k)
		}
		vwork.N = at
		t.Traversal(func(k, v int) bool { return true })
		m.Traversal(func(k, v int) bool { return true })
		s.Traversal(func(k int) bool { return true })
		for it := m.Begin(); it.IsValid(); it.Next() {
		}
		for it := m.Last(); it.IsValid(); it.Prev() {
		}
		for it := s.Begin(); it.IsValid(); it.Next() {
		}
		t.Clear()
		m.Clear()
		s.Clear()
	}},
	{"set: union, intersection, difference", true, func(n, order int) {
		a, b := set.New[int](intCompare), set.New[int](intCompare)
		for _, k := range largeOrder(order, n) {
			a.Insert(k)
			b.Insert(k + n/2)
		}
		a.Union(b)
		a.Intersect(b)
		a.Diff(b)
		b.Diff(a)
	}},
	{"multiset and multimap: all in with few keys, all out", true, func(n, order int) {
		a, m := set.NewMultiSet[int](intCompare), treemap.NewMultiMap[int, int](intCompare)
		for _, k := range largeOrder(order, n) {
			a.Insert(k % 7)
			m.Insert(k%7, k)
		}
		for k := 0; k < 7; k++ {
			a.Count(k)
			a.LowerBound(k)
			a.UpperBound(k)
			m.LowerBound(k)
			m.UpperBound(k)
			m.Get(k)
			m.Contains(k)
		}
		for k := 0; k < 4; k++ {
			a.EraseAll(k)
			m.Erase(k)
		}
	}},
	{"skip list: all in, Keys, traversal, all out", true, func(n, order int) {
		vrand.OnNew(func(c *vrand.Chosen) { c.Seed(1) })
		l := skiplist.New[int, int](intCompare, skiplist.WithMaxLevel(20))
		for _, k := range largeOrder(order, n) {
			l.Insert(k, k)
		}
		l.Keys()
		l.Traversal(func(k, v int) bool { return true })
		for _, k := range largeOrder((order+1)%largeOrders, n) {
			l.Get(k)
			l.Remove(k)
		}
	}},
	{"hash trie: all in, Keys, traversal, all out", true, func(n, order int) {
		h := hamt.New[int]()
		for _, k := range largeOrder(order, n) {
			h.Insert(hamt.Key(fmt.Sprint(k)), k)
		}
		h.Keys()
		h.StringKeys()
		h.Traversal(func(k hamt.Key, v int) bool { return true })
		for _, k := range largeOrder((order+1)%largeOrders, n) {
			h.Erase(hamt.Key(fmt.Sprint(k)))
		}
	}},
	{"bitmap: Set, IsSet, Resize, Clear", false, func(n, order int) {
		b := bitmap.New(uint64(n))
		for _, k := range largeOrder(order, n) {
			b.Set(uint64(k))
			b.IsSet(uint64(k))
			b.Unset(uint64(k))
		}
		b.Resize(uint64(2 * n))
		b.Clear()
		bitmap.NewFromData(b.Data())
	}},
	{"Bloom filter: Add, Contains, Data", false, func(n, order int) {
		b := bloom.NewWithEstimates(uint64(n), 0.01)
		for _, k := range largeOrder(order, n) {
			b.Add(fmt.Sprint(k))
			b.Contains(fmt.Sprint(-k))
		}
		bloom.NewFromData(b.Data()).Contains("x")
	}},
	{"ring: all in at once, all out at once", true, func(n, order int) {
		n /= 8
		r := ketama.New(ketama.WithReplicas(4))
		var names []string
		for _, k := range largeOrder(order, n) {
			names = append(names, fmt.Sprint(k))
		}
		r.Add(names...)
		for _, s := range names {
			r.Get(s)
		}
		r.Remove(names...)
	}},
	{"algorithms on a range", false, func(n, order int) {
		for _, r := range workRanges(n, order) {
			f, l := r()
			algorithm.Count[int](f, l, 3, intCompare)
			algorithm.CountIf[int](f, l, func(iterator.ConstIterator[int]) bool { return true })
			algorithm.Find[int](f, l, -1, intCompare)
			algorithm.FindIf[int](f, l, func(iterator.ConstIterator[int]) bool { return false })
			algorithm.MaxElement[int](f, l, intCompare)
			algorithm.MinElement[int](f, l, intCompare)
			algorithm.AllOf[int](f, l, func(iterator.ConstIterator[int]) bool { return true })
			algorithm.AnyOf[int](f, l, func(iterator.ConstIterator[int]) bool { return false })
			algorithm.NoneOf[int](f, l, func(iterator.ConstIterator[int]) bool { return false })
			f, l = r()
			algorithm.Reverse[int](f, l)
			f, l = r()
			sort.NextPermutation[int](f, l, intCompare)
		}
	}},
	{"sorts of distinct elements", true, func(n, order int) {
		for _, r := range workRanges(n, order) {
			f, l := r()
			sort.Stable[int](f, l, intCompare)
			for i := 0; i < n; i += 1 + n/64 {
				f, l = r()
				sort.LowerBound[int](f, l, i, intCompare)
				f, l = r()
				sort.UpperBound[int](f, l, i, intCompare)
				f, l = r()
				sort.BinarySearch[int](f, l, i, intCompare)
			}
		}
		for _, r := range workRanges(n, 4) {
			f, l := r()
			sort.Sort[int](f, l, intCompare)
		}
		for _, r := range workRanges(n, 4) {
			f, l := r()
			sort.NthElement[int](f, l, n/3, intCompare)
		}
	}},
}

type randIter = iterator.RandomAccessIterator[int]

// workRanges makes a vector, an array, a deque and a slice of the same elements; making them is not counted.
func workRanges(n, order int) []func() (f, l randIter) {
	at := vwork.N
	defer func() { vwork.N = at }()
	v, d, a, s := vector.New[int](), deque.New[int](), array.New[int](n), make([]int, n)
	for i, k := range largeOrder(order, n) {
		v.PushBack(k)
		d.PushBack(k)
		a.Set(i, k)
		s[i] = k
	}
	w := slice.NewSliceWrapper(s)
	return []func() (f, l randIter){
		func() (f, l randIter) { return v.Begin(), v.End() },
		func() (f, l randIter) { return d.Begin(), d.End() },
		func() (f, l randIter) { return a.Begin(), a.End() },
		func() (f, l randIter) { return w.Begin(), w.End() },
	}
}

func workWholes(sizes []int) any {
	return &core.Enum{Name: "operations on all elements", N: int64(len(workWhole) * largeOrders), Chunk: 1, Show: func(i int64) string {
		return fmt.Sprintf("%s, elements %s, sizes %v", workWhole[int(i)/largeOrders].name, largeOrderNames[int(i)%largeOrders], sizes)
	}, Run: func(w *core.Worker, i int64) (int64, error) {
		k, order := workWhole[int(i)/largeOrders], int(i)%largeOrders
		var ref float64
		for j, n := range sizes {
			w.Tick()
			at := vwork.N
			k.do(n, order)
			got := float64(vwork.N-at) / float64(n)
			if j == 0 {
				ref = got
			} else if limit := workLimit(ref, k.log); got > limit {
				return int64(j), errf("with %d elements %.0f steps are taken for each, although only %.0f with %d; at most %.0f are allowed", n, got, ref, sizes[0], limit)
			}
		}
		return int64(len(sizes)), nil
	}}
}

func init() {
	builders["P40"] = func(c Ctx) (parts []any) {
		for i := range workKinds {
			length := 4
			if workKinds[i].log && !c.Thorough() {
				length = 3
			}
			parts = append(parts, workPhases(i, 600, c.Pick(16000, 60000), length))
		}
		for i := range workKinds {
			dense := c.Pick(600, 2500)
			if workKinds[i].log {
				dense /= 3
			}
			parts = append(parts, workWalk(i, dense, c.Pick(40000, 300000), c.Pick(2, 3)))
		}
		sizes := []int{1000, 1024, 5000, 32768, c.Pick(50000, 200000)}
		slices.Sort(sizes)
		return append(parts, workWholes(sizes))
	}
}
