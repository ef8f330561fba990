package props

import (
	"fmt"
	"math/bits"

	"github.com/liyue201/gostl/algorithm/sort"
	treemap "github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/priorityqueue"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/ds/skiplist"
	"verifmc/core"
	"verifmc/vrand"
)

// How often the user's comparator is asked: all sizes up to a bound (and powers of two above it), built up in a few
// regular orders, each operation with each key that is present, absent in between or outside.

// costSizes: all up to dense, then around powers of two.
func costSizes(dense, top int) (o []int) {
	for n := 0; n <= dense; n++ {
		o = append(o, n)
	}
	for p := 1; p <= top; p *= 2 {
		for _, n := range []int{p - 1, p, p + 1, p + p/2} {
			if n > dense && n <= top {
				o = append(o, n)
			}
		}
	}
	return o
}

func lg(n int) int { return bits.Len(uint(n + 1)) }

// counter is a comparator that counts.
type counter struct {
	n    int
	desc bool
}

func (c *counter) cmp(a, b int) int {
	c.n++
	if c.desc {
		a, b = b, a
	}
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

// within runs f and checks the number of comparisons against the limit.
func (c *counter) within(limit int, n int, what string, f func()) error {
	at := c.n
	f()
	if got := c.n - at; got > limit {
		return errf("%s with %d entries asked the comparator %d times, the limit is %d", what, n, got, limit)
	}
	return nil
}

type costOrd struct {
	name                  string
	insert, erase         func(k int)
	find, get, has        func(k int)
	lower, upper          func(k int)
	size, ends, each, clr func()
}

var costOrds = []struct {
	name  string
	multi bool
	mk    func(c *counter) *costOrd
}{
	{"Map", false, func(c *counter) *costOrd {
		m := treemap.New[int, int](c.cmp)
		return &costOrd{insert: func(k int) { m.Insert(k, k) }, erase: m.Erase, find: func(k int) { m.Find(k) }, get: func(k int) { m.Get(k) }, has: func(k int) { m.Contains(k) },
			lower: func(k int) { m.LowerBound(k) }, upper: func(k int) { m.UpperBound(k) }, size: func() { m.Size() }, ends: func() { m.Begin(); m.First(); m.Last() },
			each: func() { m.Traversal(func(k, v int) bool { return true }) }, clr: m.Clear}
	}},
	{"Map by iterator", false, func(c *counter) *costOrd {
		m := treemap.New[int, int](c.cmp, treemap.WithGoroutineSafe())
		return &costOrd{insert: func(k int) { m.Insert(k, k) }, erase: func(k int) {
			if it := m.Find(k); it.IsValid() {
				m.EraseIter(it)
			}
		}, find: func(k int) { m.Find(k) }, get: func(k int) { m.Get(k) }, has: func(k int) { m.Contains(k) },
			lower: func(k int) { m.LowerBound(k) }, upper: func(k int) { m.UpperBound(k) }, size: func() { m.Size() }, ends: func() { m.Begin(); m.First(); m.Last() },
			each: func() {
				for it := m.Begin(); it.IsValid(); it.Next() {
				}
			}, clr: m.Clear}
	}},
	{"MultiMap", true, func(c *counter) *costOrd {
		m := treemap.NewMultiMap[int, int](c.cmp)
		return &costOrd{insert: func(k int) { m.Insert(k, k) }, erase: m.Erase, find: func(k int) { m.Find(k) }, get: func(k int) { m.Get(k) }, has: func(k int) { m.Contains(k) },
			lower: func(k int) { m.LowerBound(k) }, upper: func(k int) { m.UpperBound(k) }, size: func() { m.Size() }, ends: func() { m.Begin(); m.First(); m.Last() },
			each: func() { m.Traversal(func(k, v int) bool { return true }) }, clr: m.Clear}
	}},
	{"Set", false, func(c *counter) *costOrd {
		m := set.New[int](c.cmp)
		return &costOrd{insert: m.Insert, erase: m.Erase, find: func(k int) { m.Find(k) }, has: func(k int) { m.Contains(k) },
			lower: func(k int) { m.LowerBound(k) }, upper: func(k int) { m.UpperBound(k) }, size: func() { m.Size() }, ends: func() { m.Begin(); m.First(); m.Last() },
			each: func() { m.Traversal(func(k int) bool { return true }); _ = m.String() }, clr: m.Clear}
	}},
	{"MultiSet", true, func(c *counter) *costOrd {
		m := set.NewMultiSet[int](c.cmp)
		return &costOrd{insert: m.Insert, erase: m.EraseAll, find: func(k int) { m.Find(k) }, has: func(k int) { m.Contains(k) },
			lower: func(k int) { m.LowerBound(k) }, upper: func(k int) { m.UpperBound(k) }, size: func() { m.Size() }, ends: func() { m.Begin(); m.First(); m.Last() },
			each: func() { m.Traversal(func(k int) bool { return true }); _ = m.String() }, clr: m.Clear}
	}},
	{"MultiSet, one by one", true, func(c *counter) *costOrd {
		m := set.NewMultiSet[int](c.cmp, set.WithGoroutineSafe())
		return &costOrd{insert: m.Insert, erase: func(k int) {
			for m.Contains(k) {
				m.Erase(k)
			}
			m.Erase(k)
		}, find: func(k int) { m.Find(k) }, has: func(k int) { m.Contains(k) },
			lower: func(k int) { m.LowerBound(k) }, upper: func(k int) { m.UpperBound(k) }, size: func() { m.Size() }, ends: func() { m.Begin(); m.First(); m.Last() },
			each: func() {
				for it := m.Begin(); it.IsValid(); it.Next() {
				}
			}, clr: m.Clear}
	}},
}

// costOrdered: n entries with keys 0, 2, 4, ..; with dups > 1 so many entries of each key.
func costOrdered(w *core.Worker, kind, n, order, dups int, desc bool) (int64, error) {
	k := costOrds[kind]
	c := &counter{desc: desc}
	o := k.mk(c)
	ops := int64(0)
	key := func(i int) int { return i / dups * 2 }
	one := func(size int) int { return 8*lg(size) + 12 }
	for j, i := range largeOrder(order, n) {
		ops++
		if err := c.within(one(j), j, k.name+": insertion", func() { o.insert(key(i)) }); err != nil {
			return ops, err
		}
	}
	last := 0
	if n > 0 {
		last = key(n - 1)
	}
	var ks []int
	if n <= 80 {
		for q := -1; q <= last+1; q++ {
			ks = append(ks, q)
		}
	} else {
		for _, p := range places(n) {
			ks = append(ks, key(p)-1, key(p), key(p)+1)
		}
		for s := 0; s < n; s += n/37 + 1 {
			ks = append(ks, key(s))
		}
	}
	for _, q := range ks {
		for i, f := range []func(int){o.find, o.get, o.has, o.lower, o.upper} {
			if f == nil {
				continue
			}
			ops++
			if err := c.within(one(n), n, k.name+": "+[]string{"Find", "Get", "Contains", "LowerBound", "UpperBound"}[i], func() { f(q) }); err != nil {
				return ops, err
			}
		}
	}
	if err := c.within(one(n), n, k.name+": Size", o.size); err != nil {
		return ops, err
	}
	if err := c.within(3*one(n), n, k.name+": Begin, First and Last", o.ends); err != nil {
		return ops, err
	}
	if err := c.within((n+1)*one(n), n, k.name+": traversal", o.each); err != nil {
		return ops, err
	}
	// absent ones, then all of them in another order
	left := n
	for _, q := range ks {
		if q&1 != 0 {
			ops++
			if err := c.within(3*one(n), n, k.name+": erasing nothing", func() { o.erase(q) }); err != nil {
				return ops, err
			}
		}
	}
	groups := (n + dups - 1) / dups
	for j, g := range largeOrder((order+1)%largeOrders, groups) {
		size := dups
		if g == groups-1 {
			size = n - g*dups
		}
		ops++
		if err := c.within((2*size+4)*one(left), left, fmt.Sprintf("%s: erasing %d", k.name, size), func() { o.erase(g * 2) }); err != nil {
			return ops, err
		}
		left -= size
		if j == groups*2/3 {
			if err := c.within((left+1)*one(left), left, k.name+": Clear", o.clr); err != nil {
				return ops, err
			}
			return ops, c.within(one(0), 0, k.name+": insertion after Clear", func() { o.insert(1) })
		}
	}
	w.Tick()
	return ops, nil
}

func costQueue(w *core.Worker, n, order int, equal, desc bool) (int64, error) {
	c := &counter{desc: desc}
	q := priorityqueue.New[int](c.cmp)
	ops := int64(0)
	one := func(size int) int { return 4*lg(size) + 8 }
	in := largeOrder(order, n)
	push := func(i, size int) error {
		ops++
		if equal {
			i /= 7
		}
		return c.within(one(size), size, "priority queue: Push", func() { q.Push(i) })
	}
	for j, i := range in {
		if err := push(i, j); err != nil {
			return ops, err
		}
	}
	for left := n; left > 0; left-- {
		ops += 2
		if err := first(c.within(one(left), left, "priority queue: Top, Size and Empty", func() { q.Top(); q.Size(); q.Empty() }),
			c.within(one(left), left, "priority queue: Pop", func() { q.Pop() })); err != nil {
			return ops, err
		}
		if left%3 == 0 { // and some more in between
			if err := first(push(in[left%len(in)], left), c.within(one(left), left, "priority queue: Pop", func() { q.Pop() })); err != nil {
				return ops, err
			}
		}
	}
	w.Tick()
	return ops, nil
}

func costSetAlg(w *core.Worker, n, m, shape int) (int64, error) {
	c := &counter{}
	a, b := set.New[int](c.cmp), set.New[int](c.cmp)
	for i := 0; i < n; i++ {
		a.Insert(i * 2)
	}
	for i := 0; i < m; i++ {
		switch shape {
		case 0: // the same ones
			b.Insert(i * 2)
		case 1: // in between
			b.Insert(i*2 + 1)
		case 2: // behind
			b.Insert(n*2 + i)
		case 3: // a few in common
			b.Insert(i * 3)
		case 4: // before
			b.Insert(-1 - i)
		}
	}
	limit := (n + m + 1) * (8*lg(n+m) + 12)
	err := first(c.within(limit, n+m, "Union", func() { a.Union(b) }), c.within(limit, n+m, "Intersect", func() { a.Intersect(b) }), c.within(limit, n+m, "Diff", func() { a.Diff(b) }),
		c.within(limit, n+m, "Union with itself", func() { a.Union(a) }))
	w.Tick()
	return 4, err
}

func costStable(w *core.Worker, n, order, class int) (int64, error) {
	e := make([]el, n)
	for i, x := range largeOrder(order, n) {
		p := x
		switch class {
		case 1:
			p = 0
		case 2:
			p = x / 9
		case 3:
			p = x % 2
		}
		e[i] = el{p, i}
	}
	limit := 2*n*lg(n) + 16
	for kind := range raKinds {
		if n > 300 && kind > 1 {
			break
		}
		cnt := 0
		ct := mkRA(kind, e)
		sort.Stable(ct.begin, ct.end, elCmp(0, &cnt))
		if cnt > limit {
			return 1, errf("Stable asked the comparator %d times for %d elements, the limit is %d", cnt, n, limit)
		}
	}
	w.Tick()
	return int64(raKinds), nil
}

// costOrderedSort: the quick sort and the selection on elements that are in order or in reverse, all distinct.
func costOrderedSort(w *core.Worker, n int, desc bool) (int64, error) {
	e := make([]el, n)
	for i := range e {
		e[i] = el{i, i}
		if desc {
			e[i].p = n - 1 - i
		}
	}
	cnt := 0
	ct := mkRA(0, e)
	sort.Sort(ct.begin, ct.end, elCmp(0, &cnt))
	if limit := 4*n*lg(n) + 16; cnt > limit {
		return 1, errf("Sort asked the comparator %d times for %d elements in order or in reverse, the limit is %d", cnt, n, limit)
	}
	ops := int64(1)
	for _, k := range []int{0, 1, n / 4, n / 2, n - 2, n - 1} {
		if k < 0 || k >= n {
			continue
		}
		cnt := 0
		ct := mkRA(0, e)
		sort.NthElement(ct.begin, ct.end, k, elCmp(0, &cnt))
		ops++
		if limit := 4*n*lg(n) + 16; cnt > limit {
			return ops, errf("NthElement(%d) asked the comparator %d times for %d elements in order or in reverse, the limit is %d", k, cnt, n, limit)
		}
	}
	w.Tick()
	return ops, nil
}

// costSkip: the numbers the levels are drawn from are a fixed well spread series, the limit is one on the average.
func costSkip(w *core.Worker, n, order, level, series int) (int64, error) {
	c := &counter{}
	var src *vrand.Chosen
	var so []skiplist.Option
	if level > 0 {
		so = append(so, skiplist.WithMaxLevel(level))
	}
	skipMu.Lock()
	vrand.OnNew(func(x *vrand.Chosen) { src = x })
	l := skiplist.New[int, int](c.cmp, so...)
	vrand.OnNew(func(x *vrand.Chosen) {})
	skipMu.Unlock()
	if src != nil {
		src.Seed(int64(series)) // a usual generator, the same in every run
	}
	avg := func(what string, f func(k int)) error {
		at := c.n
		for i := 0; i < n; i++ {
			f(2 * i)
			f(2*i + 1)
		}
		if got, limit := c.n-at, 2*n*(8*lg(n)+24); got > limit {
			return errf("skip list of %d entries: %s asked the comparator %d times for %d keys, the limit is %d", n, what, got, 2*n, limit)
		}
		return nil
	}
	at := c.n
	for _, i := range largeOrder(order, n) {
		l.Insert(2*i, i)
	}
	if got, limit := c.n-at, n*(8*lg(n)+24); got > limit {
		return 1, errf("skip list: inserting %d entries asked the comparator %d times, the limit is %d", n, got, limit)
	}
	err := avg("Get", func(k int) { l.Get(k) })
	if err == nil {
		err = avg("removal", func(k int) { l.Remove(k) })
	}
	w.Tick()
	return int64(5 * n), err
}

func init() {
	builders["P37"] = func(c Ctx) []any {
		sizes := costSizes(c.Pick(70, 130), c.Pick(4096, 16384))
		dups := []int{1, 2, 5, 40}
		per := largeOrders * len(dups) * 2
		kinds := len(costOrds)
		qs := costSizes(c.Pick(200, 500), c.Pick(8192, 65536))
		st := costSizes(c.Pick(150, 300), c.Pick(4096, 16384))
		alg := costSizes(c.Pick(24, 40), c.Pick(2048, 8192))
		sk := costSizes(0, 1000)
		series := c.Pick(4, 40)
		levels := []int{0, 12, 16, 40, 64}
		return []any{
			&core.Enum{Name: fmt.Sprintf("maps and sets of all sizes up to %d and around powers of two up to %d", c.Pick(70, 130), c.Pick(4096, 16384)), N: int64(len(sizes) * per * kinds), Chunk: 1,
				Show: func(i int64) string {
					x := int(i) % (per * kinds)
					return fmt.Sprintf("%s, %d entries, %s, %d of each key", costOrds[x/per].name, sizes[int(i)/(per*kinds)], largeOrderNames[x%largeOrders], dups[x%per/largeOrders/2])
				},
				Run: func(w *core.Worker, i int64) (int64, error) {
					x := int(i) % (per * kinds)
					d := dups[x%per/largeOrders/2]
					if d > 1 && !costOrds[x/per].multi {
						return 0, nil
					}
					return costOrdered(w, x/per, sizes[int(i)/(per*kinds)], x%largeOrders, d, x/largeOrders%2 == 1)
				}},
			&core.Enum{Name: "priority queues", N: int64(len(qs) * largeOrders * 4), Chunk: 4, Show: func(i int64) string {
				return fmt.Sprintf("%d elements, %s", qs[i/largeOrders/4], largeOrderNames[i%largeOrders])
			}, Run: func(w *core.Worker, i int64) (int64, error) {
				x := int(i) % (largeOrders * 4)
				return costQueue(w, qs[i/largeOrders/4], x%largeOrders, x/largeOrders&1 == 1, x/largeOrders&2 == 2)
			}},
			&core.Enum{Name: "set operations", N: int64(len(alg) * len(alg) * 5), Chunk: 4, Show: func(i int64) string {
				return fmt.Sprintf("sets of %d and %d, shape %d", alg[int(i)/5/len(alg)], alg[int(i)/5%len(alg)], i%5)
			}, Run: func(w *core.Worker, i int64) (int64, error) {
				return costSetAlg(w, alg[int(i)/5/len(alg)], alg[int(i)/5%len(alg)], int(i%5))
			}},
			&core.Enum{Name: "the stable sort", N: int64(len(st) * largeOrders * 4), Chunk: 2, Show: func(i int64) string {
				return fmt.Sprintf("%d elements, %s, class %d", st[i/largeOrders/4], largeOrderNames[i%largeOrders], i/largeOrders%4)
			}, Run: func(w *core.Worker, i int64) (int64, error) {
				return costStable(w, st[i/largeOrders/4], int(i%largeOrders), int(i/largeOrders%4))
			}},
			&core.Enum{Name: "sort and selection of elements in order", N: int64(len(st) * 2), Chunk: 1, Show: func(i int64) string {
				return fmt.Sprintf("%d elements, reversed %v", st[i/2], i%2 == 1)
			}, Run: func(w *core.Worker, i int64) (int64, error) { return costOrderedSort(w, st[i/2], i%2 == 1) }},
			&core.Enum{Name: "skip lists", N: int64(len(sk) * largeOrders * len(levels) * series), Chunk: 8, Show: func(i int64) string {
				return fmt.Sprintf("%d entries, %s", sk[int(i)/(largeOrders*len(levels)*series)], largeOrderNames[i%largeOrders])
			}, Run: func(w *core.Worker, i int64) (int64, error) {
				x := int(i) % (largeOrders * len(levels) * series)
				return costSkip(w, sk[int(i)/(largeOrders*len(levels)*series)], x%largeOrders, levels[x/largeOrders%len(levels)], x/largeOrders/len(levels)+1)
			}},
		}
	}
}
