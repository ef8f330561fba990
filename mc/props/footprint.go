package props

import (
	"encoding/binary"
	"fmt"
	"math/bits"
	"runtime"
	"time"

	"github.com/liyue201/gostl/ds/bitmap"
	bloom "github.com/liyue201/gostl/ds/bloomfilter"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/hamt"
	"github.com/liyue201/gostl/ds/ketama"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	treemap "github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/priorityqueue"
	"github.com/liyue201/gostl/ds/queue"
	"github.com/liyue201/gostl/ds/rbtree"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/ds/skiplist"
	"github.com/liyue201/gostl/ds/stack"
	"github.com/liyue201/gostl/ds/vector"
	"verifmc/core"
	"verifmc/snap"
)

// How much memory can be reached from a container: every word of operations is repeated thousands of times, then every
// other one, and at many moments everything reachable from the container is added up, by its object graph. Elements are
// pointers to memory of their own, so that an element which is kept although it has been removed counts.

// blob is what elements point to.
type blob struct {
	k   int
	pad [5]int
}

const blobSize = 48

func newBlob(k int) *blob { return &blob{k: k} }

func blobCmp(a, b *blob) int { return a.k - b.k }

type act struct {
	name string
	d    int // how the operation changes the size: 1 grows it, -1 lessens it
	f    func()
}

// store is a container under test.
type store struct {
	p      any
	n      func() int // elements, or what else its memory may be in proportion to
	acts   []act
	base   int  // bytes of an empty one
	per    int  // bytes for each element
	peak   bool // in proportion to the greatest size so far, not to the present one
	period int  // operations that are enough
	square bool // operations take time in proportion to the size
}

// fresh hands out keys that were not there before, in several orders.
type fresh struct{ up, down, i int }

func (f *fresh) above() int { f.up++; return f.up }
func (f *fresh) below() int { f.down--; return f.down }

// amid: somewhere among those of the last thousands
func (f *fresh) amid() int {
	f.i++
	return f.down + int(uint64(bits.Reverse32(uint32(f.i)))*uint64(f.up-f.down)>>32)
}

// ordStore: containers of keys in order.
func ordStore(p any, n func() int, ins, del, get func(k int), lo, hi func() int, clr func()) *store {
	f := &fresh{}
	absent := -1000000
	some := func(g func()) func() {
		return func() {
			if n() > 0 {
				g()
			}
		}
	}
	s := &store{p: p, n: n, base: 8 << 10, per: 500, acts: []act{
		{"insert above all", 1, func() { ins(f.above()) }},
		{"insert below all", 1, func() { ins(f.below()) }},
		{"insert amid", 1, func() { ins(f.amid()) }},
		{"look up and insert the greatest again", 0, some(func() { get(hi()); ins(hi()) })},
		{"erase the smallest", -1, some(func() { del(lo()) })},
		{"erase the greatest", -1, some(func() { del(hi()) })},
		{"look up and erase an absent one", 0, func() { absent--; get(absent); del(absent) }},
	}}
	if clr != nil {
		s.acts = append(s.acts, act{"clear", -1, clr})
	}
	return s
}

var footKinds = []struct {
	name string
	mk   func() *store
}{
	{"deque", func() *store {
		d := deque.New[*blob]()
		k := 0
		el := func() *blob { k++; return newBlob(k) }
		return &store{p: d, n: d.Size, base: 64 << 10, per: 600, acts: []act{
			{"PushBack", 1, func() { d.PushBack(el()) }},
			{"PushFront", 1, func() { d.PushFront(el()) }},
			{"Insert amid", 1, func() { d.Insert(d.Size()/2, el()) }},
			{"PopBack", -1, func() {
				if !d.Empty() {
					d.PopBack()
				}
			}},
			{"PopFront", -1, func() {
				if !d.Empty() {
					d.PopFront()
				}
			}},
			{"EraseAt amid", -1, func() { d.EraseAt(d.Size() / 2) }},
			{"EraseRange of a third", -1, func() { d.EraseRange(d.Size()/3, 2*d.Size()/3) }},
			{"Set", 0, func() { d.Set(d.Size()/2, el()) }},
			{"Clear", -1, d.Clear},
		}}
	}},
	{"vector", func() *store {
		v := vector.New[*blob]()
		k := 0
		el := func() *blob { k++; return newBlob(k) }
		return &store{p: v, n: v.Size, peak: true, base: 8 << 10, per: 300, acts: []act{
			{"PushBack", 1, func() { v.PushBack(el()) }},
			{"InsertAt the front", 1, func() { v.InsertAt(0, el()) }},
			{"PopBack", -1, func() {
				if !v.Empty() {
					v.PopBack()
				}
			}},
			{"EraseAt the front", -1, func() { v.EraseAt(0) }},
			{"EraseIndexRange of a third", -1, func() { v.EraseIndexRange(v.Size()/3, 2*v.Size()/3) }},
			{"Insert by iterator", 1, func() { v.Insert(v.IterAt(v.Size()/2), el()) }},
			{"Reserve one more", 0, func() { v.Reserve(v.Size() + 1) }},
			{"ShrinkToFit", 0, v.ShrinkToFit},
			{"Clear", -1, v.Clear},
		}}
	}},
	{"vector shrunk after every change", func() *store {
		v := vector.New[*blob]()
		k := 0
		el := func() *blob { k++; return newBlob(k) }
		return &store{p: v, n: v.Size, base: 8 << 10, per: 300, square: true, acts: []act{
			{"PushBack", 1, func() { v.PushBack(el()); v.ShrinkToFit() }},
			{"PopBack", -1, func() {
				if !v.Empty() {
					v.PopBack()
				}
				v.ShrinkToFit()
			}},
			{"EraseAt the front", -1, func() { v.EraseAt(0); v.ShrinkToFit() }},
			{"Clear", -1, func() { v.Clear(); v.ShrinkToFit() }},
		}}
	}},
	{"bidirectional list", func() *store {
		l, o := bidlist.New[*blob](), bidlist.New[*blob]()
		k := 0
		el := func() *blob { k++; return newBlob(k) }
		for i := 0; i < 3; i++ {
			o.PushBack(el())
		}
		return &store{p: l, n: l.Len, base: 8 << 10, per: 500, acts: []act{
			{"PushBack", 1, func() { l.PushBack(el()) }},
			{"PushFront", 1, func() { l.PushFront(el()) }},
			{"InsertAfter", 1, func() {
				if n := l.FrontNode(); n != nil {
					l.InsertAfter(el(), n)
				} else {
					l.PushBack(el())
				}
			}},
			{"PushBackList", 3, func() { l.PushBackList(o) }},
			{"PopBack", -1, func() {
				if !l.Empty() {
					l.PopBack()
				}
			}},
			{"PopFront", -1, func() {
				if !l.Empty() {
					l.PopFront()
				}
			}},
			{"Remove the second", -1, func() {
				if n := l.FrontNode(); n != nil && n.Next() != nil {
					l.Remove(n.Next())
				} else if n != nil {
					l.Remove(n)
				}
			}},
			{"MoveToFront", 0, func() {
				if n := l.BackNode(); n != nil {
					l.MoveToFront(n)
				}
			}},
			{"Clear", -1, l.Clear},
		}}
	}},
	{"singly linked list", func() *store {
		l := simplelist.New[*blob]()
		k := 0
		el := func() *blob { k++; return newBlob(k) }
		return &store{p: l, n: l.Len, base: 8 << 10, per: 500, acts: []act{
			{"PushBack", 1, func() { l.PushBack(el()) }},
			{"PushFront", 1, func() { l.PushFront(el()) }},
			{"InsertAfter", 1, func() {
				if n := l.FrontNode(); n != nil {
					l.InsertAfter(el(), n)
				} else {
					l.PushBack(el())
				}
			}},
			{"Remove the first", -1, func() {
				if n := l.FrontNode(); n != nil {
					l.Remove(nil, n)
				}
			}},
			{"Remove the second", -1, func() {
				if n := l.FrontNode(); n != nil && n.Next() != nil {
					l.Remove(n, n.Next())
				} else if n != nil {
					l.Remove(nil, n)
				}
			}},
			{"move the second to the back", 0, func() {
				if n := l.FrontNode(); n != nil && n.Next() != nil {
					l.MoveToBack(n, n.Next())
				}
			}},
		}}
	}},
	{"queue", func() *store { return queueStore(queue.New[*blob]()) }},
	{"queue on a list", func() *store { return queueStore(queue.New[*blob](queue.WithListContainer[*blob]())) }},
	{"stack", func() *store { return stackStore(stack.New[*blob]()) }},
	{"stack on a list", func() *store { return stackStore(stack.New[*blob](stack.WithListContainer[*blob]())) }},
	{"priority queue", func() *store {
		q := priorityqueue.New[*blob](blobCmp)
		f := &fresh{}
		return &store{p: q, n: q.Size, peak: true, base: 8 << 10, per: 500, acts: []act{
			{"push above all", 1, func() { q.Push(newBlob(f.above())) }},
			{"push below all", 1, func() { q.Push(newBlob(f.below())) }},
			{"push amid", 1, func() { q.Push(newBlob(f.amid())) }},
			{"pop", -1, func() {
				if !q.Empty() {
					q.Pop()
				}
			}},
			{"clear", -1, q.Clear},
		}}
	}},
	{"red-black tree", func() *store {
		t := rbtree.New[int, *blob](intCompare)
		return ordStore(t, t.Size, func(k int) { t.Insert(k, newBlob(k)) }, func(k int) {
			if n := t.FindNode(k); n != nil {
				t.Delete(n)
			}
		}, func(k int) { t.FindLowerBoundNode(k); t.FindUpperBoundNode(k) }, func() int { return t.First().Key() }, func() int { return t.Last().Key() }, t.Clear)
	}},
	{"map", func() *store {
		t := treemap.New[int, *blob](intCompare, treemap.WithGoroutineSafe())
		return ordStore(t, t.Size, func(k int) { t.Insert(k, newBlob(k)) }, t.Erase, func(k int) { t.Get(k); t.LowerBound(k); t.UpperBound(k) }, func() int { return t.First().Key() }, func() int { return t.Last().Key() }, t.Clear)
	}},
	{"map, erasing by iterator", func() *store {
		t := treemap.New[int, *blob](intCompare)
		return ordStore(t, t.Size, func(k int) { t.Insert(k, newBlob(k)) }, func(k int) {
			if it := t.Find(k); it.IsValid() {
				t.EraseIter(it)
			}
		}, func(k int) { t.Contains(k); t.Begin() }, func() int { return t.First().Key() }, func() int { return t.Last().Key() }, t.Clear)
	}},
	{"multimap", func() *store {
		t := treemap.NewMultiMap[int, *blob](intCompare)
		return ordStore(t, t.Size, func(k int) { t.Insert(k, newBlob(k)) }, t.Erase, func(k int) { t.Get(k); t.LowerBound(k); t.UpperBound(k) }, func() int { return t.First().Key() }, func() int { return t.Last().Key() }, t.Clear)
	}},
	{"set", func() *store {
		t := set.New[*blob](blobCmp, set.WithGoroutineSafe())
		return ordStore(t, t.Size, func(k int) { t.Insert(newBlob(k)) }, func(k int) { t.Erase(newBlob(k)) }, func(k int) { t.Contains(newBlob(k)); t.LowerBound(newBlob(k)); t.UpperBound(newBlob(k)) }, func() int { return t.First().Value().k }, func() int { return t.Last().Value().k }, t.Clear)
	}},
	{"multiset", func() *store {
		t := set.NewMultiSet[*blob](blobCmp)
		s := ordStore(t, t.Size, func(k int) { t.Insert(newBlob(k)) }, func(k int) { t.Erase(newBlob(k)) }, func(k int) { t.Contains(newBlob(k)); t.LowerBound(newBlob(k)); t.UpperBound(newBlob(k)) }, func() int { return t.First().Value().k }, func() int { return t.Last().Value().k }, t.Clear)
		s.acts = append(s.acts, act{"erase all of the greatest", -1, func() {
			if t.Size() > 0 {
				t.EraseAll(newBlob(t.Last().Value().k))
			}
		}})
		return s
	}},
	{"skip list", func() *store { return skipStore() }},
	{"skip list of few levels", func() *store { return skipStore(skiplist.WithMaxLevel(2)) }},
	{"hash trie", func() *store { return trieStore(8) }},
	{"hash trie, long keys", func() *store { return trieStore(40) }},
	{"bitmap", func() *store {
		b := bitmap.New(100)
		k := uint64(0)
		return &store{p: b, n: func() int { return int(b.Size() / 8) }, base: 16 << 10, per: 4, acts: []act{
			{"Set", 0, func() { k++; b.Set(k % b.Size()) }},
			{"Unset", 0, func() { k++; b.Unset(k % b.Size()) }},
			{"Resize to more", 1, func() { b.Resize(b.Size() + 8*100) }},
			{"Resize to less", -1, func() { b.Resize(max(b.Size(), 8*100+8) - 8*100) }},
			{"Clear", 0, b.Clear},
		}}
	}},
	{"Bloom filter", func() *store {
		b := bloom.New(1000, 3, bloom.WithGoroutineSafe())
		k, q := 0, 0
		return &store{p: b, n: func() int { return 0 }, base: 8 << 10, acts: []act{
			{"Add", 0, func() { k++; b.Add(fmt.Sprint(k)) }},
			{"Contains", 0, func() { q++; b.Contains(fmt.Sprint("value ", q)) }},
			{"Contains what was added", 0, func() { b.Contains(fmt.Sprint(k)) }},
			{"Data", 0, func() { b.Data() }},
		}}
	}},
	{"ring", func() *store {
		r := ketama.New(ketama.WithReplicas(8), ketama.WithGoroutineSafe())
		first, last, absent := 0, 0, -1
		name := func(i int) string { return fmt.Sprintf("node %d", i) }
		return &store{p: r, n: func() int { return last - first }, base: 16 << 10, per: 8 * 500, period: 1000, acts: []act{
			{"add", 1, func() { r.Add(name(last)); last++ }},
			{"add one again", 0, func() {
				if last > first {
					r.Add(name(last - 1))
				}
			}},
			{"remove the oldest", -1, func() {
				if last > first {
					r.Remove(name(first))
					first++
				}
			}},
			{"remove the newest", -1, func() {
				if last > first {
					last--
					r.Remove(name(last))
				}
			}},
			{"remove an absent one", 0, func() { absent--; r.Remove(name(absent)) }},
			{"look up", 0, func() { absent--; r.Get(name(absent)) }},
		}}
	}},
}

func intCompare(a, b int) int { return a - b }

func queueStore(q *queue.Queue[*blob]) *store {
	k := 0
	return &store{p: q, n: q.Size, base: 64 << 10, per: 600, acts: []act{
		{"Push", 1, func() { k++; q.Push(newBlob(k)) }},
		{"Pop", -1, func() {
			if !q.Empty() {
				q.Pop()
			}
		}},
		{"Front, Back", 0, func() {
			if !q.Empty() {
				q.Front()
				q.Back()
			}
		}},
		{"Clear", -1, q.Clear},
	}}
}

func stackStore(q *stack.Stack[*blob]) *store {
	k := 0
	return &store{p: q, n: q.Size, base: 64 << 10, per: 600, acts: []act{
		{"Push", 1, func() { k++; q.Push(newBlob(k)) }},
		{"Pop", -1, func() {
			if !q.Empty() {
				q.Pop()
			}
		}},
		{"Top", 0, func() {
			if !q.Empty() {
				q.Top()
			}
		}},
		{"Clear", -1, q.Clear},
	}}
}

func skipStore(o ...skiplist.Option) *store {
	l := skiplist.New[int, *blob](intCompare, o...)
	end := func(last bool) int {
		k := 0
		l.Traversal(func(x int, _ *blob) bool { k = x; return last })
		return k
	}
	s := ordStore(l, l.Len, func(k int) { l.Insert(k, newBlob(k)) }, func(k int) { l.Remove(k) }, func(k int) { l.Get(k) }, func() int { return end(false) }, func() int { return end(true) }, nil)
	s.period, s.square = 1500, true
	return s
}

func trieStore(size int) *store {
	h := hamt.New[*blob]()
	first, last, absent := 0, 0, -1
	key := func(k int) hamt.Key {
		b := make([]byte, size)
		binary.LittleEndian.PutUint64(b, uint64(k))
		return b
	}
	return &store{p: h, n: func() int { return last - first }, base: 16 << 10, per: 1000, acts: []act{
		{"insert", 1, func() { h.Insert(key(last), newBlob(last)); last++ }},
		{"insert one again", 0, func() {
			if last > first {
				h.Insert(key(last-1), newBlob(last))
			}
		}},
		{"erase the oldest", -1, func() {
			if last > first {
				h.Erase(key(first))
				first++
			}
		}},
		{"erase the newest", -1, func() {
			if last > first {
				last--
				h.Erase(key(last))
			}
		}},
		{"erase an absent one", 0, func() { absent--; h.Erase(key(absent)) }},
		{"look up", 0, func() { h.Get(key((first + last) / 2)) }},
		{"look up an absent one", 0, func() { absent--; h.Get(key(absent)) }},
	}}
}

// footPart repeats each word of at most lu operations, then each of at most ld.
func footPart(kind int, what string, lu, ld, top, steps int) any {
	k := footKinds[kind]
	acts := k.mk().acts
	// a word that removes more than it adds does nothing first
	net := func(w []int) (d int) {
		for _, x := range w {
			d += acts[x].d
		}
		return d
	}
	var wu [][]int
	for _, w := range words(len(acts), lu) {
		if net(w) >= 0 {
			wu = append(wu, w)
		}
	}
	wd := words(len(acts), ld)
	show := func(i int64) string {
		u, d := wu[int(i)%len(wu)], wd[int(i)/len(wu)]
		s := k.name + ": repeat"
		for _, x := range u {
			s += ", " + acts[x].name
		}
		s += fmt.Sprintf(", %d operations or until size %d; then repeat", steps, top)
		for _, x := range d {
			s += ", " + acts[x].name
		}
		return s
	}
	return &core.Enum{Name: what + k.name, N: int64(len(wu) * len(wd)), Show: show,
		Run: func(w *core.Worker, i int64) (int64, error) {
			s := k.mk()
			h := snap.New()
			ops, peak := 0, 0
			look := func() error {
				w.Tick()
				n := s.n()
				peak = max(peak, n)
				of, what := n, "elements"
				if s.peak {
					of, what = peak, "elements at most"
				}
				got := int(h.Footprint(s.p))
				if limit := s.base + s.per*of; got > limit {
					return errf("after %d operations, with %d %s, %d bytes can be reached from it; %d are allowed", ops, of, what, got, limit)
				}
				return nil
			}
			steps := steps
			if s.square {
				steps = min(steps, 4000)
			}
			if s.period > 0 && lu > 1 {
				steps = min(steps, s.period)
			}
			run := func(word []int) error {
				for k := 0; k < steps; k++ {
					ops++
					s.acts[word[k%len(word)]].f()
					n := s.n()
					peak = max(peak, n)
					if n > top && (k+1)%len(word) == 0 {
						break
					}
					if k&(k-1) == 0 || k%(steps/8) == 0 {
						if err := look(); err != nil {
							return err
						}
					}
				}
				return look()
			}
			err := first(run(wu[int(i)%len(wu)]), run(wd[int(i)/len(wu)]), run(wu[int(i)%len(wu)]))
			return int64(ops), err
		}}
}

// heapInUse is what is in use after a garbage collection.
func heapInUse() int {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int(m.HeapAlloc)
}

// heapPart measures by the garbage collector what the object graph does not show: memory behind the capacity of a slice,
// or held elsewhere. One operation is repeated until the container is large, then another one.
func heapPart(k int, top int) any {
	kind := footKinds[k]
	acts := kind.mk().acts
	var up []int
	for i, a := range acts {
		if a.d > 0 || a.d == 0 && i == len(acts)-1 {
			up = append(up, i)
		}
	}
	n := int64(len(up) * len(acts))
	return &core.Enum{Name: "memory in use with a " + kind.name, N: n, Chunk: n, Show: func(i int64) string {
		return fmt.Sprintf("%s: repeat %s until size %d, then %s", kind.name, acts[up[int(i)%len(up)]].name, top, acts[int(i)/len(up)].name)
	}, Run: func(w *core.Worker, i int64) (int64, error) {
		before := heapInUse()
		s := kind.mk()
		steps := top
		if s.square {
			steps = min(top, 4000)
		}
		peak, ops := 0, 0
		for _, a := range []int{up[int(i)%len(up)], int(i) / len(up)} {
			for k := 0; k < steps && s.n() <= top; k++ {
				ops++
				s.acts[a].f()
				peak = max(peak, s.n())
			}
			w.Tick()
		}
		of := s.n()
		if s.peak {
			of = peak
		}
		got, limit := 0, s.base+s.per*of+(200<<10)
		for try := 0; ; try++ { // finalizers and the like may need another round
			if got = heapInUse() - before; got <= limit {
				break
			}
			if try == 4 {
				return int64(ops), errf("after %d operations %d bytes are in use, with %d elements, at most %d, in it; %d are allowed", ops, got, s.n(), peak, limit)
			}
			time.Sleep(time.Millisecond)
		}
		runtime.KeepAlive(s)
		return int64(ops), nil
	}}
}

func init() {
	builders["P39"] = func(c Ctx) (parts []any) {
		for i := range footKinds {
			parts = append(parts, footPart(i, "memory reachable from a ", 2, 2, c.Pick(400, 1000), c.Pick(2000, 6000)))
		}
		for i := range footKinds {
			parts = append(parts, footPart(i, "memory reachable from a large ", 1, 1, c.Pick(12000, 40000), c.Pick(16000, 60000)))
		}
		for i := range footKinds {
			parts = append(parts, heapPart(i, c.Pick(12000, 40000)))
		}
		return parts
	}
}
