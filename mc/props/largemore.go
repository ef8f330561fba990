package props

import (
	"fmt"
	"slices"

	"github.com/liyue201/gostl/ds/array"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	"github.com/liyue201/gostl/ds/slice"
	"github.com/liyue201/gostl/ds/vector"

	"verifmc/core"
)

// rest is a sequence of n elements with the operations the other large parts leave out.
// Every operation changes the container and the slice in the same way.
type rest struct {
	m    []int
	acts []restAct
	same func(m []int) error
	str  func() string
}

type restAct struct {
	name string
	do   func(p, q int) // 0 <= p <= q < len(m)
	once bool           // p and q do not matter
}

func atLeast(what string, got, least int) error {
	if got < least {
		return errf("%s is %d, want %d at least", what, got, least)
	}
	return nil
}

func restVector(n int) *rest {
	v := vector.New[int]()
	s := &rest{}
	for i := 0; i < n; i++ {
		v.PushBack(i)
		s.m = append(s.m, i)
	}
	next := 1 << 20
	v2 := func() int { next++; return next }
	s.str = func() string { return v.String() }
	s.same = func(m []int) error {
		if v.Size() != len(m) || len(v.Data()) != len(m) {
			return errf("size %d, %d elements of data, want %d", v.Size(), len(v.Data()), len(m))
		}
		for i, x := range m {
			if v.At(i) != x {
				return errf("element %d of %d is %d, want %d", i, len(m), v.At(i), x)
			}
		}
		return atLeast("capacity", v.Capacity(), len(m))
	}
	s.acts = []restAct{
		{"SetAt", func(p, q int) { x := v2(); v.SetAt(p, x); s.m[p] = x }, false},
		{"Set through an iterator", func(p, q int) { x := v2(); v.IterAt(q).SetValue(x); s.m[q] = x }, false},
		{"Reserve a little", func(p, q int) { v.Reserve(v.Capacity() + 1) }, true},
		{"ShrinkToFit", func(p, q int) { v.ShrinkToFit() }, true},
		{"Reserve", func(p, q int) { v.Reserve(2*v.Size() + 7) }, true},
		{"Reserve less", func(p, q int) { v.Reserve(p) }, true},
		{"Insert at an iterator", func(p, q int) { x := v2(); v.Insert(v.IterAt(p), x); s.m = slices.Insert(s.m, p, x) }, false},
		{"Erase at an iterator", func(p, q int) { v.Erase(v.IterAt(p)); s.m = slices.Delete(s.m, p, p+1) }, false},
		{"EraseIndexRange and push", func(p, q int) {
			v.EraseIndexRange(p, q)
			s.m = slices.Delete(s.m, p, q)
			for k := p; k < q; k++ {
				x := v2()
				v.PushBack(x)
				s.m = append(s.m, x)
			}
		}, false},
		{"EraseRange and insert", func(p, q int) {
			q = min(q, p+40)
			v.EraseRange(v.IterAt(p), v.IterAt(q))
			s.m = slices.Delete(s.m, p, q)
			for k := p; k < q; k++ {
				x := v2()
				v.InsertAt(p, x)
				s.m = slices.Insert(s.m, p, x)
			}
		}, false},
		{"copy by NewFromVector", func(p, q int) { w := vector.NewFromVector(v); v.SetAt(p, -1); v.Clear(); v = w }, false},
		{"Resize and push", func(p, q int) {
			v.Resize(q)
			for k := q; k < len(s.m); k++ {
				s.m[k] = v2()
				v.PushBack(s.m[k])
			}
		}, false},
		{"Clear and push", func(p, q int) {
			v.Clear()
			for k := range s.m {
				s.m[k] = v2()
				v.PushBack(s.m[k])
			}
		}, true},
	}
	return s
}

func restDeque(n int) *rest {
	d := deque.New[int]()
	s := &rest{}
	for i := 0; i < n; i++ {
		d.PushBack(i)
		s.m = append(s.m, i)
	}
	next := 1 << 20
	v2 := func() int { next++; return next }
	s.str = func() string { return d.String() }
	s.same = func(m []int) error {
		if d.Size() != len(m) {
			return errf("size %d, want %d", d.Size(), len(m))
		}
		for i, x := range m {
			if d.At(i) != x {
				return errf("element %d of %d is %d, want %d", i, len(m), d.At(i), x)
			}
		}
		return nil
	}
	s.acts = []restAct{
		{"Set", func(p, q int) { x := v2(); d.Set(p, x); s.m[p] = x }, false},
		{"Set through an iterator", func(p, q int) { x := v2(); d.IterAt(q).SetValue(x); s.m[q] = x }, false},
		{"EraseRange and push at the back", func(p, q int) {
			d.EraseRange(p, q)
			s.m = slices.Delete(s.m, p, q)
			for k := p; k < q; k++ {
				x := v2()
				d.PushBack(x)
				s.m = append(s.m, x)
			}
		}, false},
		{"EraseRange and push at the front", func(p, q int) {
			d.EraseRange(p, q)
			s.m = slices.Delete(s.m, p, q)
			var f []int
			for k := p; k < q; k++ {
				x := v2()
				d.PushFront(x)
				f = append(f, x)
			}
			slices.Reverse(f)
			s.m = append(f, s.m...)
		}, false},
		{"EraseRange and insert", func(p, q int) {
			q = min(q, p+40)
			d.EraseRange(p, q)
			s.m = slices.Delete(s.m, p, q)
			for k := p; k < q; k++ {
				x := v2()
				d.Insert(p, x)
				s.m = slices.Insert(s.m, p, x)
			}
		}, false},
		{"rotate", func(p, q int) {
			for k := 0; k < p; k++ {
				d.PushBack(d.PopFront())
			}
			s.m = append(slices.Clone(s.m[p:]), s.m[:p]...)
		}, false},
		{"Clear and push", func(p, q int) {
			d.Clear()
			for k := range s.m {
				s.m[k] = v2()
				d.PushBack(s.m[k])
			}
		}, true},
	}
	return s
}

func restArray(n int) *rest {
	a := array.New[int](n)
	s := &rest{m: make([]int, n)}
	next := 1 << 20
	v2 := func() int { next++; return next }
	s.str = func() string { return a.String() }
	s.same = func(m []int) error {
		if a.Size() != len(m) || len(a.Data()) != len(m) {
			return errf("size %d, %d elements of data, want %d", a.Size(), len(a.Data()), len(m))
		}
		for i, x := range m {
			if a.At(i) != x {
				return errf("element %d of %d is %d, want %d", i, len(m), a.At(i), x)
			}
		}
		return nil
	}
	s.acts = []restAct{
		{"Set all", func(p, q int) {
			for i := range s.m {
				s.m[i] = v2()
				a.Set(i, s.m[i])
			}
		}, true},
		{"Set", func(p, q int) { x := v2(); a.Set(p, x); s.m[p] = x }, false},
		{"Set through an iterator", func(p, q int) { x := v2(); a.IterAt(q).SetValue(x); s.m[q] = x }, false},
		{"copy by NewFromArray", func(p, q int) { b := array.NewFromArray(a); a.Set(p, -1); a = b }, false},
		{"SwapArray", func(p, q int) {
			b := array.New[int](n)
			m := make([]int, n)
			b.Set(p, v2())
			m[p] = next
			b.SwapArray(a)
			for i, x := range s.m {
				if b.At(i) != x {
					s.m = nil // reported as a difference
					return
				}
			}
			s.m = m
			b.Fill(-7)
		}, false},
		{"Fill and Set", func(p, q int) {
			x := v2()
			a.Fill(x)
			for i := range s.m {
				s.m[i] = x
			}
			a.Set(q, x+1)
			s.m[q] = x + 1
			next++
		}, false},
	}
	return s
}

func restSlice(n int) *rest {
	d := make([]int, n)
	w := slice.NewSliceWrapper(d)
	s := &rest{m: make([]int, n)}
	next := 1 << 20
	v2 := func() int { next++; return next }
	s.same = func(m []int) error {
		if w.Len() != len(m) {
			return errf("size %d, want %d", w.Len(), len(m))
		}
		for i, x := range m {
			if w.At(i) != x || d[i] != x {
				return errf("element %d of %d is %d, %d in the slice itself, want %d", i, len(m), w.At(i), d[i], x)
			}
		}
		return nil
	}
	s.acts = []restAct{
		{"Set all", func(p, q int) {
			for i := range s.m {
				s.m[i] = v2()
				w.Set(i, s.m[i])
			}
		}, true},
		{"Set", func(p, q int) { x := v2(); w.Set(p, x); s.m[p] = x }, false},
		{"Set through an iterator", func(p, q int) { x := v2(); w.Begin().IteratorAt(q).SetValue(x); s.m[q] = x }, false},
		{"write to the slice", func(p, q int) { d[p] = v2(); s.m[p] = next }, false},
		{"Attach", func(p, q int) {
			d = slices.Clone(d)
			d[p] = v2()
			w.Attach(d)
			s.m[p] = next
		}, false},
	}
	return s
}

func restBidlist(n int) *rest {
	l := bidlist.New[int]()
	s := &rest{}
	for i := 0; i < n; i++ {
		l.PushBack(i)
		s.m = append(s.m, i)
	}
	next := 1 << 20
	v2 := func() int { next++; return next }
	node := func(i int) *bidlist.Node[int] {
		if i > l.Len()/2 {
			x := l.BackNode()
			for k := l.Len() - 1; k > i; k-- {
				x = x.Prev()
			}
			return x
		}
		x := l.FrontNode()
		for ; i > 0; i-- {
			x = x.Next()
		}
		return x
	}
	s.str = func() string { return l.String() }
	s.same = func(m []int) error {
		if l.Len() != len(m) || l.Size() != len(m) {
			return errf("length %d, want %d", l.Len(), len(m))
		}
		x, y := l.FrontNode(), l.BackNode()
		for i, v := range m {
			if x == nil || x.Value != v {
				return errf("forwards: element %d of %d is missing or wrong", i, len(m))
			}
			x = x.Next()
		}
		for i := len(m) - 1; i >= 0; i-- {
			if y == nil || y.Value != m[i] {
				return errf("backwards: element %d of %d is missing or wrong", i, len(m))
			}
			y = y.Prev()
		}
		if x != nil || y != nil {
			return errf("more than %d elements", len(m))
		}
		return nil
	}
	take := func(p int) int { x := s.m[p]; s.m = slices.Delete(s.m, p, p+1); return x }
	s.acts = []restAct{
		{"InsertBefore", func(p, q int) { l.InsertBefore(v2(), node(p)); s.m = slices.Insert(s.m, p, next) }, false},
		{"InsertAfter", func(p, q int) { l.InsertAfter(v2(), node(q)); s.m = slices.Insert(s.m, q+1, next) }, false},
		{"Remove", func(p, q int) { l.Remove(node(p)); take(p) }, false},
		{"Remove a node twice", func(p, q int) { x := node(q); l.Remove(x); l.Remove(x); take(q) }, false},
		{"MoveToFront", func(p, q int) { l.MoveToFront(node(q)); x := take(q); s.m = slices.Insert(s.m, 0, x) }, false},
		{"MoveToBack", func(p, q int) { l.MoveToBack(node(p)); x := take(p); s.m = append(s.m, x) }, false},
		{"MoveAfter, forwards", func(p, q int) {
			l.MoveAfter(node(p), node(q))
			if p < q {
				x := take(p)
				s.m = slices.Insert(s.m, q, x)
			}
		}, false},
		{"MoveAfter, backwards", func(p, q int) {
			l.MoveAfter(node(q), node(p))
			if p < q {
				x := take(q)
				s.m = slices.Insert(s.m, p+1, x)
			}
		}, false},
		{"PushBackList", func(p, q int) {
			o := bidlist.New[int]()
			for k := 0; k < 5; k++ {
				o.PushBack(v2())
				s.m = append(s.m, next)
			}
			l.PushBackList(o)
		}, true},
		{"PushFrontList of a long list", func(p, q int) {
			o := bidlist.New[int]()
			var f []int
			for k := 0; k < n; k++ {
				o.PushBack(v2())
				f = append(f, next)
			}
			l.PushFrontList(o)
			s.m = append(f, s.m...)
		}, true},
		{"PushBackList of itself", func(p, q int) { l.PushBackList(l); s.m = append(s.m, s.m...) }, true},
		{"Clear and push", func(p, q int) {
			l.Clear()
			for k := range s.m {
				s.m[k] = v2()
				l.PushBack(next)
			}
		}, true},
	}
	return s
}

func restSimple(n int) *rest {
	l := simplelist.New[int]()
	s := &rest{}
	for i := 0; i < n; i++ {
		l.PushBack(i)
		s.m = append(s.m, i)
	}
	next := 1 << 20
	v2 := func() int { next++; return next }
	node := func(i int) *simplelist.Node[int] {
		if i < 0 {
			return nil
		}
		x := l.FrontNode()
		for ; i > 0; i-- {
			x = x.Next()
		}
		return x
	}
	s.str = func() string { return l.String() }
	s.same = func(m []int) error {
		if l.Len() != len(m) {
			return errf("length %d, want %d", l.Len(), len(m))
		}
		x := l.FrontNode()
		for i, v := range m {
			if x == nil || x.Value != v {
				return errf("element %d of %d is missing or wrong", i, len(m))
			}
			if i == len(m)-1 && x != l.BackNode() {
				return errf("the last of %d nodes is not the back node", len(m))
			}
			x = x.Next()
		}
		if x != nil {
			return errf("more than %d elements", len(m))
		}
		return nil
	}
	take := func(p int) int { x := s.m[p]; s.m = slices.Delete(s.m, p, p+1); return x }
	two := func(p int) (*simplelist.Node[int], *simplelist.Node[int]) {
		a := node(p - 1)
		if a == nil {
			return nil, l.FrontNode()
		}
		return a, a.Next()
	}
	s.acts = []restAct{
		{"InsertAfter", func(p, q int) { l.InsertAfter(v2(), node(q)); s.m = slices.Insert(s.m, q+1, next) }, false},
		{"Remove", func(p, q int) { a, b := two(p); l.Remove(a, b); take(p) }, false},
		{"MoveToFront", func(p, q int) {
			a, b := two(q)
			l.MoveToFront(a, b)
			x := take(q)
			s.m = slices.Insert(s.m, 0, x)
		}, false},
		{"MoveToBack", func(p, q int) {
			a, b := two(p)
			l.MoveToBack(a, b)
			x := take(p)
			s.m = append(s.m, x)
		}, false},
		{"PushFront", func(p, q int) { l.PushFront(v2()); s.m = slices.Insert(s.m, 0, next) }, true},
		{"PushBack", func(p, q int) { l.PushBack(v2()); s.m = append(s.m, next) }, true},
	}
	return s
}

// largeRest performs every remaining operation at every place of interest of a large sequence.
func largeRest(c Ctx, mks ...func(n int) *rest) *core.Enum {
	sizes := []int{200, 1100, 5000, 17000, largeSize(c)}
	return &core.Enum{Name: "every operation on large contents", N: int64(len(mks) * len(sizes)), Chunk: 1,
		Show: func(i int64) string {
			return fmt.Sprintf("container %d, %d elements", int(i)/len(sizes), sizes[int(i)%len(sizes)])
		},
		Run: func(w *core.Worker, i int64) (int64, error) {
			n := sizes[int(i)%len(sizes)]
			s := mks[int(i)/len(sizes)](n)
			ops := int64(0)
			look := func(what string, p, q int) error {
				w.Tick()
				if err := s.same(s.m); err != nil {
					return errf("%s(%d, %d): %w", what, p, q, err)
				}
				return nil
			}
			if err := look("pushing", n, n); err != nil {
				return 0, err
			}
			for _, a := range s.acts {
				ps := places(len(s.m))
				if n > 5000 && len(ps) > 12 && !c.Thorough() {
					ps = append(slices.Clone(ps[len(ps)-8:]), 0, 1, 127, 128, 4096)
				}
				for j, p := range ps {
					if p >= len(s.m) {
						continue
					}
					for k, q := range []int{p, ps[(j+3)%len(ps)], len(s.m) - 1} {
						q = min(max(p, q), len(s.m)-1)
						if k > 0 && q == p {
							continue
						}
						ops++
						a.do(p, q)
						if err := look(a.name, p, q); err != nil {
							return ops, err
						}
						if a.once {
							break
						}
						if p >= len(s.m) {
							break
						}
					}
					if a.once {
						break
					}
				}
				if s.str != nil && n <= 5000 {
					if g, x := s.str(), fmt.Sprint(s.m); g != x {
						return ops, errf("%s: the string form is not that of the %d elements: %.200s", a.name, len(s.m), g)
					}
				}
			}
			return ops, nil
		}}
}

func init() {
	add := func(prop string, mks ...func(n int) *rest) {
		extend(prop, func(c Ctx) []any {
			if c.Variant != "plain" {
				return nil
			}
			return []any{largeRest(c, mks...)}
		})
	}
	add("P01", restDeque)
	add("P02", restVector)
	add("P03", restArray, restSlice)
	add("P04", restBidlist)
	add("P05", restSimple)
}
