package props

import (
	"fmt"
	"slices"

	"github.com/liyue201/gostl/algorithm"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	treemap "github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/rbtree"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/utils/iterator"
	"verifmc/core"
	"verifmc/snap"
)

type cIt = iterator.ConstIterator[el]

// itC is any container with iterators, holding known elements in a known order.
type itC struct {
	name  string
	begin func() cIt
	first func() cIt
	end   func() cIt // nil: the container has no end position of its own
	last  func() cIt
	at    func(i int) cIt // by the container; nil if it cannot
	read  func() []el
	keyed bool
	ra    bool
	bid   bool
	set   bool
}

const itKinds = 12

// mkIt builds a container of a kind with the given contents; ord is the order in
// which the elements are put into containers that sort them.
func mkIt(kind int, e []el, ord []int) itC {
	n := len(e)
	if ord == nil {
		for i := range e {
			ord = append(ord, i)
		}
	}
	ic := func(a, b int) int { return a - b }
	ec := func(a, b el) int { return a.id - b.id }
	switch kind {
	case 0, 1, 2:
		c := mkRA(kind, e)
		return itC{name: c.name, begin: func() cIt { return c.at(0) }, first: func() cIt { return c.begin.Clone() }, end: func() cIt { return c.end.Clone() },
			last: func() cIt { return c.at(n - 1) }, at: func(i int) cIt { return c.at(i) }, read: c.read, ra: true, bid: true, set: true}
	case 3, 4:
		d := deque.New[el]()
		switch kind {
		case 3: // the first third pushed at the front
			h := n / 3
			for i := h - 1; i >= 0; i-- {
				d.PushFront(e[i])
			}
			for _, x := range e[h:] {
				d.PushBack(x)
			}
		case 4: // contents wandered through the storage
			for i := 0; i < 5; i++ {
				d.PushBack(el{-1, -1})
			}
			for _, x := range e {
				d.PushBack(x)
			}
			for i := 0; i < 5; i++ {
				d.PopFront()
			}
		}
		return itC{name: "deque", begin: func() cIt { return d.Begin() }, first: func() cIt { return d.First() }, end: func() cIt { return d.End() },
			last: func() cIt { return d.Last() }, at: func(i int) cIt { return d.Begin().IteratorAt(i) }, read: func() []el {
				var o []el
				for i := 0; i < d.Size(); i++ {
					o = append(o, d.At(i))
				}
				return o
			}, ra: true, bid: true, set: true}
	case 5:
		l := bidlist.New[el]()
		for _, x := range e {
			l.PushBack(x)
		}
		return itC{name: "bidlist", begin: func() cIt { return bidlist.NewIterator(l.FrontNode()) }, first: func() cIt { return bidlist.NewIterator(l.FrontNode()) },
			last: func() cIt { return bidlist.NewIterator(l.BackNode()) }, read: func() []el {
				var o []el
				for x := l.FrontNode(); x != nil; x = x.Next() {
					o = append(o, x.Value)
				}
				return o
			}, bid: true, set: true}
	case 6:
		l := simplelist.New[el]()
		for _, x := range e {
			l.PushBack(x)
		}
		return itC{name: "simplelist", begin: func() cIt { return simplelist.NewIterator(l.FrontNode()) }, first: func() cIt { return simplelist.NewIterator(l.FrontNode()) },
			last: func() cIt { return simplelist.NewIterator(l.BackNode()) }, read: func() []el {
				var o []el
				for x := l.FrontNode(); x != nil; x = x.Next() {
					o = append(o, x.Value)
				}
				return o
			}, set: true}
	case 7:
		t := rbtree.New[int, el](ic)
		for _, i := range ord {
			t.Insert(10*i, e[i])
		}
		return itC{name: "rbtree", begin: func() cIt { return rbtree.NewIterator(t.Begin()) }, first: func() cIt { return t.IterFirst() },
			last: func() cIt { return t.IterLast() }, read: func() []el {
				var o []el
				t.Traversal(func(_ int, v el) bool { o = append(o, v); return true })
				return o
			}, bid: true, set: true, keyed: true}
	case 8:
		m := treemap.New[int, el](ic)
		for _, i := range ord {
			m.Insert(10*i, e[i])
		}
		return itC{name: "map", begin: func() cIt { return m.Begin() }, first: func() cIt { return m.First() }, last: func() cIt { return m.Last() },
			read: func() []el {
				var o []el
				m.Traversal(func(_ int, v el) bool { o = append(o, v); return true })
				return o
			}, bid: true, set: true, keyed: true}
	case 9:
		m := treemap.NewMultiMap[int, el](func(a, b int) int { return a/30 - b/30 })
		ks := slices.Sorted(slices.Values(ord)) // keys of one class have to go in in order
		done := map[int]bool{}
		for _, i := range ord {
			if c := i / 3; !done[c] {
				done[c] = true
				for _, j := range ks {
					if j/3 == c {
						m.Insert(10*j, e[j])
					}
				}
			}
		}
		return itC{name: "multimap", begin: func() cIt { return m.Begin() }, first: func() cIt { return m.First() }, last: func() cIt { return m.Last() },
			read: func() []el {
				var o []el
				m.Traversal(func(_ int, v el) bool { o = append(o, v); return true })
				return o
			}, bid: true, set: true, keyed: true}
	case 10:
		s := set.New[el](ec)
		for _, i := range ord {
			s.Insert(e[i])
		}
		return itC{name: "set", begin: func() cIt { return s.Begin() }, first: func() cIt { return s.First() }, last: func() cIt { return s.Last() },
			read: func() []el {
				var o []el
				s.Traversal(func(v el) bool { o = append(o, v); return true })
				return o
			}, bid: true}
	case 11:
		s := set.NewMultiSet[el](ec)
		for _, i := range ord {
			s.Insert(e[i])
		}
		return itC{name: "multiset", begin: func() cIt { return s.Begin() }, first: func() cIt { return s.First() }, last: func() cIt { return s.Last() },
			read: func() []el {
				var o []el
				s.Traversal(func(v el) bool { o = append(o, v); return true })
				return o
			}, bid: true}
	}
	panic("kind")
}

// walkTo makes an iterator at position i by stepping.
func (c itC) walkTo(i int) cIt {
	it := c.begin()
	for ; i > 0; i-- {
		it.Next()
	}
	return it
}

func prev(it cIt) cIt { return it.(iterator.ConstBidIterator[el]).Prev() }

func setVal(it cIt, v el) {
	switch x := it.(type) {
	case interface{ SetValue(el) }:
		x.SetValue(v)
	case interface{ SetValue(el) error }:
		x.SetValue(v)
	default:
		panic("no SetValue")
	}
}

// itM is a container and two of its iterators next to a slice and two positions.
// A position of len(m) or -1 designates nothing; containers without random access have only one such position.
type itM struct {
	c   itC
	m   []el
	it  [2]cIt
	pos [2]int
	id  int
}

const (
	iNext = iota + 1
	iPrev
	iClone
	iAt
	iBegin
	iEnd
	iFirst
	iLast
	iSet
	iObs
)

func newItM(kind, n int, ord []int) *itM {
	e := make([]el, n)
	for i := range e {
		e[i] = el{i * 3, i}
	}
	s := &itM{c: mkIt(kind, e, ord), m: e, id: n}
	for k := range s.it {
		s.it[k] = s.c.begin()
	}
	return s
}

func (s *itM) norm(p int) int {
	if s.c.ra {
		return p
	}
	if p < 0 || p >= len(s.m) {
		return len(s.m)
	}
	return p
}

func (s *itM) Ops(o []uint32) []uint32 {
	n := len(s.m)
	for k := 0; k < 2; k++ {
		o = append(o, op(iNext, k, 0), op(iClone, k, 0), op(iBegin, k, 0), op(iFirst, k, 0))
		if s.c.bid {
			o = append(o, op(iPrev, k, 0))
		}
		if s.c.end != nil {
			o = append(o, op(iEnd, k, 0))
		}
		o = append(o, op(iLast, k, 0))
		if s.c.ra {
			for _, i := range near(n) {
				o = append(o, op(iAt, k, i))
			}
		}
		if s.c.set && s.pos[k] >= 0 && s.pos[k] < n && s.m[s.pos[k]].id < 100 {
			o = append(o, op(iSet, k, 0))
		}
	}
	return append(o, op(iObs, 0, 0))
}

func (s *itM) Name(o uint32) string {
	k, a, b := unop(o)
	return fmt.Sprintf("%s: %s(iterator %d, %d)", s.c.name, [...]string{"", "Next", "Prev", "becomes a clone of the other", "IteratorAt", "Begin", "End", "First", "Last", "SetValue", "observe"}[k], a, b)
}

func (s *itM) Do(o uint32) error {
	k, a, b := unop(o)
	n := len(s.m)
	switch k {
	case iObs:
		return s.Check()
	case iNext, iPrev:
		other := s.it[1-a].Clone()
		var r cIt
		if k == iNext {
			r = s.it[a].Next()
			if s.pos[a] < n {
				s.pos[a]++
			}
		} else {
			r = prev(s.it[a])
			if s.c.ra && s.pos[a] >= 0 || !s.c.ra && s.pos[a] < n {
				s.pos[a]--
			}
		}
		s.pos[a] = s.norm(s.pos[a])
		if r == nil || !r.Equal(s.it[a]) {
			return errf("%s returns another position than that of the iterator", s.Name(o))
		}
		if !other.Equal(s.it[1-a]) {
			return errf("%s moves another iterator", s.Name(o))
		}
	case iClone:
		s.it[a] = s.it[1-a].Clone()
		s.pos[a] = s.pos[1-a]
	case iAt:
		s.it[a] = s.it[1-a].(raIt).IteratorAt(b)
		s.pos[a] = b
	case iBegin:
		s.it[a], s.pos[a] = s.c.begin(), 0
	case iFirst:
		s.it[a], s.pos[a] = s.c.first(), 0
	case iEnd:
		s.it[a], s.pos[a] = s.c.end(), n
	case iLast:
		s.it[a], s.pos[a] = s.c.last(), s.norm(n-1)
	case iSet:
		v := s.m[s.pos[a]]
		v.id += 100
		s.m[s.pos[a]] = v
		setVal(s.it[a], v)
	}
	return nil
}

func (s *itM) Check() error {
	n := len(s.m)
	for k, it := range s.it {
		p := s.pos[k]
		in := p >= 0 && p < n
		if err := want(fmt.Sprintf("iterator %d at position %d of %d: IsValid()", k, p, n), it.IsValid(), in); err != nil {
			return err
		}
		if in {
			if err := want(fmt.Sprintf("iterator %d at position %d of %d: Value()", k, p, n), it.Value(), s.m[p]); err != nil {
				return err
			}
			if s.c.keyed {
				if err := want("Key()", it.(iterator.ConstKvIterator[int, el]).Key(), 10*p); err != nil {
					return err
				}
			}
		}
		if s.c.ra {
			if err := want("Position()", it.(raIt).Position(), p); err != nil {
				return err
			}
			for _, q := range near(n-1, 3, 128) {
				if q < 0 {
					continue
				}
				x := it.(raIt).IteratorAt(q)
				if !x.IsValid() || x.Value() != s.m[q] || x.Position() != q {
					return errf("from position %d: IteratorAt(%d) does not designate that element", p, q)
				}
				if x.Equal(it) != (q == p) || it.Equal(x) != (q == p) {
					return errf("iterators at positions %d and %d compare equal: %v", p, q, x.Equal(it))
				}
			}
			if it.(raIt).Position() != p {
				return errf("IteratorAt moves the iterator")
			}
		}
		cl := it.Clone()
		if !cl.Equal(it) || !it.Equal(cl) {
			return errf("a clone at position %d of %d does not equal its original", p, n)
		}
		cl.Next()
		if s.c.bid && in {
			prev(it.Clone())
			prev(prev(it.Clone()))
		}
		if it.IsValid() != in || in && it.Value() != s.m[p] {
			return errf("moving a clone moves the original at position %d", p)
		}
	}
	a, b := s.it[0], s.it[1]
	eq := s.pos[0] == s.pos[1]
	if a.Equal(b) != eq || b.Equal(a) != eq {
		return errf("iterators at positions %d and %d of %d compare equal: %v and %v", s.pos[0], s.pos[1], n, a.Equal(b), b.Equal(a))
	}
	if got := s.c.read(); !slices.Equal(got, s.m) {
		return errf("the contents are %v, want %v", clip(got), clip(s.m))
	}
	return nil
}

func (s *itM) State(h *snap.Hasher) {
	h.Int(s.pos[0])
	h.Int(s.pos[1])
	for _, x := range s.m {
		h.Int(x.id)
	}
	h.Graph(s.it[0])
	h.Graph(s.it[1])
}

// fullWalk steps through a whole container in both directions.
func fullWalk(c itC, e []el) error {
	n := len(e)
	if c.end != nil {
		i := 0
		for it := c.begin(); !it.Equal(c.end()); it.Next() {
			if i >= n || !it.IsValid() || it.Value() != e[i] {
				return errf("step %d of the walk from begin to end", i)
			}
			i++
		}
		if i != n {
			return errf("the walk from begin to end makes %d steps over %d elements", i, n)
		}
		it := c.end()
		for i := n - 1; i >= 0; i-- {
			if prev(it); !it.IsValid() || it.Value() != e[i] {
				return errf("stepping back from the end to element %d", i)
			}
		}
	}
	for _, f := range []func() cIt{c.begin, c.first} {
		i := 0
		for it := f(); it.IsValid(); it.Next() {
			if i >= n || it.Value() != e[i] {
				return errf("step %d of the forward walk", i)
			}
			i++
		}
		if i != n {
			return errf("the forward walk meets %d of %d elements", i, n)
		}
	}
	if n > 0 && c.last().Value() != e[n-1] {
		return errf("Last is not the last element")
	}
	if c.bid {
		i := n
		for it := c.last(); it.IsValid(); prev(it) {
			i--
			if i < 0 || it.Value() != e[i] {
				return errf("step %d of the backward walk", n-1-i)
			}
		}
		if i != 0 {
			return errf("the backward walk meets %d of %d elements", n-i, n)
		}
	}
	// all iterators at once
	its := make([]cIt, 0, n)
	for it := c.begin(); it.IsValid(); it.Next() {
		its = append(its, it.Clone())
	}
	for i, it := range its {
		if it.Value() != e[i] {
			return errf("the clone made at position %d designates something else", i)
		}
		for _, j := range near(n-1, i) {
			if j >= 0 && it.Equal(its[j]) != (i == j) {
				return errf("iterators at %d and %d compare equal: %v", i, j, i != j)
			}
		}
		if c.set {
			v := el{e[i].p + 1, e[i].id}
			setVal(it, v)
			if it.Value() != v {
				return errf("writing through the iterator at %d", i)
			}
		}
		if x := it.Clone(); i+1 < n {
			if x.Next(); !x.Equal(its[i+1]) || !its[i+1].Equal(x) {
				return errf("stepping from %d does not reach the iterator at %d", i, i+1)
			}
		}
		if x := it.Clone(); i > 0 && c.bid {
			if prev(x); !x.Equal(its[i-1]) {
				return errf("stepping back from %d does not reach the iterator at %d", i, i-1)
			}
		}
	}
	got := c.read()
	for i := range e {
		w := e[i]
		if c.set {
			w.p++
		}
		if i >= len(got) || got[i] != w {
			return errf("after writing through every iterator once, element %d is not what was written", i)
		}
	}
	return nil
}

func perms(n int) [][]int {
	var out [][]int
	p := make([]int, n)
	used := make([]bool, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			out = append(out, slices.Clone(p))
			return
		}
		for x := 0; x < n; x++ {
			if !used[x] {
				used[x] = true
				p[i] = x
				rec(i + 1)
				used[x] = false
			}
		}
	}
	rec(0)
	return out
}

// crossEqual: an iterator of one container equals no iterator of another one, the same contents or not.
// Iterators over wrapped slices are left out: what they compare is the position, the wrapper need not be the same.
// Node containers have one end position, the nil node, which is not told apart by container.
func crossEqual(a, b itC) error {
	positions := func(c itC) []cIt {
		var o []cIt
		for it := c.begin(); it.IsValid(); it.Next() {
			o = append(o, it.Clone())
		}
		if c.end != nil {
			o = append(o, c.end())
		}
		return o
	}
	pb := positions(b)
	for i, x := range positions(a) {
		for j, y := range pb {
			if x.Equal(y) || y.Equal(x) {
				return errf("the iterator at %d of a %s equals the one at %d of another container, a %s", i, a.name, j, b.name)
			}
		}
	}
	return nil
}

func init() {
	builders["P23"] = func(c Ctx) []any {
		parts := holdParts(c)
		if c.Variant != "plain" {
			return parts
		}
		sizes := []int{0, 1, 2, 3, 4, 7}
		parts = append(parts, &core.Spec{Name: "all moves of two iterators over every container", Roots: itKinds * len(sizes), Depth: c.Pick(8, 14), Max: c.Pick(400000, 3000000),
			Root: func(r int) core.Machine { return newItM(r%itKinds, sizes[r/itKinds], nil) }})
		top := c.Pick(7, 8)
		var ps [][]int
		for n := 0; n <= top; n++ {
			ps = append(ps, perms(n)...)
		}
		mkE := func(n int) []el {
			e := make([]el, n)
			for i := range e {
				e[i] = el{i & 3, i}
			}
			return e
		}
		parts = append(parts, &core.Enum{Name: fmt.Sprintf("ordered containers, all orders of insertion of up to %d elements", top), N: int64(len(ps) * 5),
			Show: func(i int64) string { return fmt.Sprintf("kind %d, insertion order %v", 7+i%5, ps[i/5]) },
			Run: func(w *core.Worker, i int64) (int64, error) {
				p := ps[i/5]
				e := mkE(len(p))
				return 1, fullWalk(mkIt(7+int(i%5), e, p), e)
			}})
		parts = append(parts, &core.Enum{Name: "iterators of containers of different kinds", N: itKinds * itKinds * 4,
			Show: func(i int64) string {
				return fmt.Sprintf("kinds %d and %d, %d elements", i%itKinds, i/itKinds%itKinds, i/itKinds/itKinds)
			},
			Run: func(w *core.Worker, i int64) (int64, error) {
				n := int(i / itKinds / itKinds)
				a, b := mkIt(int(i%itKinds), mkE(n), nil), mkIt(int(i/itKinds%itKinds), mkE(n), nil)
				if a.name == b.name {
					return 0, nil
				}
				ops := int64(0)
				x := a.begin()
				for j := 0; j < n; j++ {
					y := b.begin()
					for k := 0; k <= n; k++ {
						if fmt.Sprintf("%T", x) != fmt.Sprintf("%T", y) {
							ops += 2
							if x.Equal(y) || y.Equal(x) {
								return ops, errf("an iterator of %s at element %d equals one of %s at %d", a.name, j, b.name, k)
							}
						}
						y.Next()
					}
					x.Next()
				}
				return ops, nil
			}})
		big := []int{0, 1, 2, 5, 8, 16, 31, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 383, 384, 385, 500, 1000, c.Pick(2000, 10000)}
		parts = append(parts, &core.Enum{Name: "every container, many sizes", N: int64(len(big) * itKinds * 3), Chunk: 1,
			Show: func(i int64) string {
				return fmt.Sprintf("kind %d, %d elements, order %d", i%itKinds, big[i/itKinds/3], i/itKinds%3)
			},
			Run: func(w *core.Worker, i int64) (int64, error) {
				n := big[i/itKinds/3]
				var ord []int
				for j := 0; j < n; j++ {
					switch i / itKinds % 3 {
					case 0:
						ord = append(ord, j)
					case 1:
						ord = append(ord, n-1-j)
					case 2:
						for f := 37; ; f++ {
							if gcd(f, n) == 1 {
								ord = append(ord, (j*f+11)%n)
								break
							}
						}
					}
				}
				e := mkE(n)
				return int64(n), fullWalk(mkIt(int(i%itKinds), e, ord), e)
			}})
		maxX := c.Pick(9, 40)
		parts = append(parts, &core.Enum{Name: fmt.Sprintf("iterators of two containers, every pair of kinds, up to %d elements", maxX-1), N: int64(itKinds * itKinds * maxX),
			Show: func(i int64) string {
				return fmt.Sprintf("kinds %d and %d, %d elements each", i%itKinds, i/itKinds%itKinds, i/itKinds/itKinds)
			},
			Run: func(w *core.Worker, i int64) (int64, error) {
				n := int(i / itKinds / itKinds)
				e := mkE(n)
				a, b := mkIt(int(i%itKinds), e, nil), mkIt(int(i/itKinds%itKinds), e, nil)
				if a.name == "slice" && b.name == "slice" {
					return 0, nil
				}
				return int64((n + 1) * (n + 1)), crossEqual(a, b)
			}})
		return parts
	}

	builders["P28"] = func(c Ctx) []any {
		type cs struct {
			kind   int
			e      []el
			lo, hi int
		}
		show := func(x cs) string {
			return fmt.Sprintf("%s %v, range [%d,%d)", mkIt(x.kind, nil, nil).name, clip(x.e), x.lo, x.hi)
		}
		run := func(x cs) (int64, error) {
			ct := mkIt(x.kind, x.e, nil)
			in := x.e[x.lo:x.hi]
			first, last := ct.walkTo(x.lo), ct.walkTo(x.hi)
			ops := int64(0)
			unmoved := func(name string) error {
				ops++
				if !first.Equal(ct.walkTo(x.lo)) || !last.Equal(ct.walkTo(x.hi)) {
					return errf("%s moved the iterators passed to it", name)
				}
				return nil
			}
			at := func(name string, it cIt, i int) error {
				if err := unmoved(name); err != nil {
					return err
				}
				if it == nil || !it.Equal(ct.walkTo(x.lo+i)) {
					return errf("%s does not return position %d of the range", name, i)
				}
				return nil
			}
			maxp := -1
			for _, e := range x.e {
				maxp = max(maxp, e.p)
			}
			maxp = min(maxp, 6)
			for _, kind := range []int{0, 1, 2} {
				n := 0
				cmp := elCmp(kind, &n)
				mx, mn := 0, 0
				for i := range in {
					if cmp(in[i], in[mx]) > 0 {
						mx = i
					}
					if cmp(in[i], in[mn]) < 0 {
						mn = i
					}
				}
				if err := at(fmt.Sprintf("MaxElement (comparator %d)", kind), algorithm.MaxElement(first, last, cmp), mx); err != nil {
					return ops, err
				}
				if err := at(fmt.Sprintf("MinElement (comparator %d)", kind), algorithm.MinElement(first, last, cmp), mn); err != nil {
					return ops, err
				}
				for p := -1; p <= maxp+1; p++ {
					v := el{p, -1}
					cnt, idx := 0, len(in)
					for i := len(in) - 1; i >= 0; i-- {
						if in[i].p == p {
							cnt, idx = cnt+1, i
						}
					}
					if got := algorithm.Count(first, last, v, cmp); got != cnt {
						return ops, errf("Count(%d) = %d, want %d", p, got, cnt)
					}
					if err := at(fmt.Sprintf("Find(%d)", p), algorithm.Find(first, last, v, cmp), idx); err != nil {
						return ops, err
					}
				}
			}
			for mask := 0; mask < 1<<(maxp+1); mask++ {
				var seen []el
				f := func(it cIt) bool {
					seen = append(seen, it.Value())
					return mask>>min(it.Value().p, 6)&1 == 1
				}
				cnt, idx := 0, len(in)
				for i := len(in) - 1; i >= 0; i-- {
					if mask>>min(in[i].p, 6)&1 == 1 {
						cnt, idx = cnt+1, i
					}
				}
				look := func(name string) error {
					for _, e := range seen {
						if !slices.Contains(in, e) {
							return errf("%s shows the predicate %v, which is outside of the range", name, e)
						}
					}
					seen = nil
					return unmoved(name)
				}
				if got := algorithm.CountIf(first, last, f); got != cnt {
					return ops, errf("CountIf(%b) = %d, want %d", mask, got, cnt)
				}
				if err := look("CountIf"); err != nil {
					return ops, err
				}
				if err := at(fmt.Sprintf("FindIf(%b)", mask), algorithm.FindIf(first, last, f), idx); err != nil {
					return ops, err
				}
				for _, q := range []struct {
					name      string
					got, want bool
				}{{"AnyOf", algorithm.AnyOf(first, last, f), cnt > 0}, {"AllOf", algorithm.AllOf(first, last, f), cnt == len(in)}, {"NoneOf", algorithm.NoneOf(first, last, f), cnt == 0}} {
					if q.got != q.want {
						return ops, errf("%s(%b) = %v, want %v", q.name, mask, q.got, q.want)
					}
				}
				if err := look("AnyOf, AllOf or NoneOf"); err != nil {
					return ops, err
				}
			}
			if !slices.Equal(ct.read(), x.e) {
				return ops, errf("the contents were changed")
			}
			// reverse
			if ct.bid && ct.set && ct.name != "rbtree" && (ct.ra || x.hi < len(x.e) || x.lo == x.hi) {
				if f, ok := first.(iterator.BidIterator[el]); ok {
					w := slices.Clone(x.e)
					slices.Reverse(w[x.lo:x.hi])
					algorithm.Reverse(f, last.(iterator.BidIterator[el]))
					if err := unmoved("Reverse"); err != nil {
						return ops, err
					}
					if got := ct.read(); !slices.Equal(got, w) {
						return ops, errf("Reverse gives %v, want %v", clip(got), clip(w))
					}
				}
			}
			// swap of every pair in the range
			if ct.set {
				cur := slices.Clone(ct.read())
				for _, i := range near(len(in)-1, len(in)/2) {
					for _, j := range near(len(in)-1, len(in)/3) {
						if i < 0 || j < 0 {
							continue
						}
						a, ok1 := ct.walkTo(x.lo + i).(iterator.Iterator[el])
						b, ok2 := ct.walkTo(x.lo + j).(iterator.Iterator[el])
						if !ok1 || !ok2 {
							continue
						}
						algorithm.Swap(a, b)
						ops++
						cur[x.lo+i], cur[x.lo+j] = cur[x.lo+j], cur[x.lo+i]
						if got := ct.read(); !slices.Equal(got, cur) {
							return ops, errf("Swap of %d and %d gives %v, want %v", i, j, clip(got), clip(cur))
						}
						if !a.Equal(ct.walkTo(x.lo+i)) || !b.Equal(ct.walkTo(x.lo+j)) {
							return ops, errf("Swap moved the iterators passed to it")
						}
					}
				}
			}
			return ops, nil
		}
		var parts []any
		mk := func(name string, n int64, get func(i int64) cs) {
			parts = append(parts, &core.Enum{Name: name, N: n, Show: func(i int64) string { return show(get(i)) }, Run: func(w *core.Worker, i int64) (int64, error) { return run(get(i)) }})
		}
		top := c.Pick(5, 7)
		for n := 0; n <= top; n++ {
			base := int64(3)
			tot := int64(1)
			for range n {
				tot *= base
			}
			var rs [][2]int
			for lo := 0; lo <= n; lo++ {
				for hi := lo; hi <= n; hi++ {
					rs = append(rs, [2]int{lo, hi})
				}
			}
			per := int64(itKinds * len(rs))
			mk(fmt.Sprintf("all sequences of %d elements of three values, every sub-range and container", n), tot*per, func(i int64) cs {
				k := i % per
				r := rs[k/itKinds]
				return cs{int(k % itKinds), els(word(i/per, 3, n)), r[0], r[1]}
			})
		}
		for n := top + 1; n <= c.Pick(7, 8); n++ {
			ws := weak(n)
			mk(fmt.Sprintf("all orders of %d elements with ties", n), int64(len(ws)), func(i int64) cs {
				e := els(ws[i])
				for j := range e {
					e[j].p = min(e[j].p, 4)
				}
				lo := int(i/itKinds) % 3
				return cs{int(i % itKinds), e, lo, n - int(i/itKinds/3)%2}
			})
		}
		sz := []int{9, 12, 16, 17, 31, 64, 127, 128, 129, 130, 200, 256, 257, c.Pick(300, 1000)}
		nf := len(families)
		mk("long sequences", int64(len(sz)*nf*itKinds), func(i int64) cs {
			n := sz[i/int64(nf*itKinds)]
			e := family(int(i/itKinds)%nf, n)
			lo, hi := 0, n
			switch i % 3 {
			case 1:
				lo = n / 3
			case 2:
				hi = n - n/4
			}
			return cs{int(i % itKinds), e, lo, hi}
		})
		return parts
	}
}
