package props

import (
	"fmt"
	"slices"

	"github.com/liyue201/gostl/ds/array"
	"github.com/liyue201/gostl/ds/bloomfilter"
	"github.com/liyue201/gostl/ds/hamt"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/ds/skiplist"
	"github.com/liyue201/gostl/ds/vector"
	"github.com/liyue201/gostl/utils/comparator"
	"verifmc/core"
)

// twin is an original or a copy: how it is changed, what it holds and what it should hold.
type twin struct {
	m    []int
	ops  []twinOp
	look func() []int
}

type twinOp struct {
	name string
	do   func(t *twin)
}

func twinVector(v *vector.Vector[int], m []int) *twin {
	return &twin{m: m, ops: []twinOp{
		{"SetAt(0)", func(t *twin) {
			v.SetAt(0, -1)
			if len(t.m) > 0 {
				t.m[0] = -1
			}
		}},
		{"SetAt(last)", func(t *twin) {
			v.SetAt(len(t.m)-1, -2)
			if len(t.m) > 0 {
				t.m[len(t.m)-1] = -2
			}
		}},
		{"Begin().SetValue", func(t *twin) {
			if len(t.m) > 0 {
				v.Begin().SetValue(-3)
				t.m[0] = -3
			}
		}},
		{"PushBack", func(t *twin) { v.PushBack(-4); t.m = append(t.m, -4) }},
		{"InsertAt(0)", func(t *twin) { v.InsertAt(0, -5); t.m = slices.Insert(t.m, 0, -5) }},
		{"InsertAt(half)", func(t *twin) { p := len(t.m) / 2; v.InsertAt(p, -6); t.m = slices.Insert(t.m, p, -6) }},
		{"EraseAt(0)", func(t *twin) {
			v.EraseAt(0)
			if len(t.m) > 0 {
				t.m = slices.Delete(t.m, 0, 1)
			}
		}},
		{"EraseIndexRange(half)", func(t *twin) {
			if p := len(t.m) / 2; p > 0 {
				v.EraseIndexRange(0, p)
				t.m = slices.Delete(t.m, 0, p)
			}
		}},
		{"PopBack, PushBack", func(t *twin) {
			if len(t.m) > 0 {
				v.PopBack()
				v.PushBack(-7)
				t.m[len(t.m)-1] = -7
			}
		}},
		{"Clear, PushBack", func(t *twin) { v.Clear(); v.PushBack(-8); t.m = []int{-8} }},
		{"Resize(half), PushBack", func(t *twin) {
			p := len(t.m) / 2
			v.Resize(p)
			v.PushBack(-9)
			t.m = append(t.m[:p:p], -9)
		}},
		{"ShrinkToFit, SetAt(0)", func(t *twin) {
			v.ShrinkToFit()
			v.SetAt(0, -10)
			if len(t.m) > 0 {
				t.m[0] = -10
			}
		}},
		{"Reserve, SetAt(0)", func(t *twin) {
			v.Reserve(2*len(t.m) + 1)
			v.SetAt(0, -11)
			if len(t.m) > 0 {
				t.m[0] = -11
			}
		}},
	}, look: func() []int {
		var o []int
		for i := 0; i < v.Size(); i++ {
			o = append(o, v.At(i))
		}
		return o
	}}
}

func twinArray(a *array.Array[int], m []int) *twin {
	return &twin{m: m, ops: []twinOp{
		{"Set(0)", func(t *twin) {
			if len(t.m) > 0 {
				a.Set(0, -1)
				t.m[0] = -1
			}
		}},
		{"Last().SetValue", func(t *twin) {
			if len(t.m) > 0 {
				a.Last().SetValue(-2)
				t.m[len(t.m)-1] = -2
			}
		}},
		{"Fill", func(t *twin) {
			a.Fill(-3)
			for i := range t.m {
				t.m[i] = -3
			}
		}},
		{"SwapArray(another), Set(half)", func(t *twin) {
			if len(t.m) > 0 {
				o := array.New[int](len(t.m))
				a.SwapArray(o)
				a.Set(len(t.m)/2, -4)
				clear(t.m)
				t.m[len(t.m)/2] = -4
				o.Fill(-5)
			}
		}},
	}, look: func() []int {
		var o []int
		for i := 0; i < a.Size(); i++ {
			o = append(o, a.At(i))
		}
		return o
	}}
}

func twinList(l *bidlist.List[int], m []int) *twin {
	return &twin{m: m, ops: []twinOp{
		{"PushFront", func(t *twin) { l.PushFront(-1); t.m = slices.Insert(t.m, 0, -1) }},
		{"PopFront", func(t *twin) {
			if len(t.m) > 0 {
				l.PopFront()
				t.m = t.m[1:]
			}
		}},
		{"write to the last node", func(t *twin) {
			if len(t.m) > 0 {
				l.BackNode().Value = -2
				t.m[len(t.m)-1] = -2
			}
		}},
		{"MoveToFront(last)", func(t *twin) {
			if n := len(t.m); n > 0 {
				x := t.m[n-1]
				l.MoveToFront(l.BackNode())
				t.m = slices.Insert(t.m[:n-1:n-1], 0, x)
			}
		}},
		{"Clear, PushBack", func(t *twin) { l.Clear(); l.PushBack(-3); t.m = []int{-3} }},
	}, look: func() []int {
		var o []int
		for x := l.FrontNode(); x != nil; x = x.Next() {
			o = append(o, x.Value)
		}
		return o
	}}
}

func twinSet(s *set.Set[int], m []int) *twin {
	return &twin{m: m, ops: []twinOp{
		{"Insert(less)", func(t *twin) { s.Insert(-1); t.m = slices.Insert(t.m, 0, -1) }},
		{"Insert(greater)", func(t *twin) { s.Insert(1 << 30); t.m = append(t.m, 1<<30) }},
		{"Erase(first)", func(t *twin) {
			if len(t.m) > 0 {
				s.Erase(t.m[0])
				t.m = t.m[1:]
			}
		}},
		{"Erase(half)", func(t *twin) {
			if p := len(t.m) / 2; p > 0 {
				s.Erase(t.m[p])
				t.m = slices.Delete(t.m, p, p+1)
			}
		}},
		{"Clear, Insert", func(t *twin) { s.Clear(); s.Insert(7); t.m = []int{7} }},
	}, look: func() []int {
		var o []int
		for it := s.Begin(); it.IsValid(); it.Next() {
			o = append(o, it.Value())
		}
		return o
	}}
}

// a slice the caller owns
func twinSlice(p []int) *twin {
	return &twin{m: slices.Clone(p), ops: []twinOp{
		{"overwrite all of the list", func(t *twin) {
			for i := range p {
				p[i], t.m[i] = -i-1, -i-1
			}
		}},
		{"append to part of the list", func(t *twin) {
			if n := len(p); n > 0 {
				_ = append(p[:n-1], -9)
				t.m[n-1] = -9
			}
		}},
	}, look: func() []int { return slices.Clone(p) }}
}

func twinSkip(l *skiplist.Skiplist[int, int], m []int) *twin {
	return &twin{m: m, ops: []twinOp{
		{"Insert(less)", func(t *twin) { l.Insert(-1, 0); t.m = slices.Insert(t.m, 0, -1) }},
		{"Remove(first)", func(t *twin) {
			if len(t.m) > 0 {
				l.Remove(t.m[0])
				t.m = t.m[1:]
			}
		}},
		{"nothing", func(t *twin) {}},
	}, look: func() []int { return l.Keys() }}
}

func twinHamt(h *hamt.Hamt[int], m []int) *twin {
	num := func(k int) hamt.Key { return hamt.Key(fmt.Sprint(k)) }
	return &twin{m: m, ops: []twinOp{
		{"Insert", func(t *twin) { h.Insert(num(-1), 0); t.m = slices.Insert(t.m, 0, -1) }},
		{"Erase", func(t *twin) {
			if len(t.m) > 0 {
				h.Erase(num(t.m[0]))
				t.m = t.m[1:]
			}
		}},
		{"nothing", func(t *twin) {}},
	}, look: func() []int {
		var o []int
		for _, k := range h.StringKeys() {
			var x int
			if _, err := fmt.Sscan(k, &x); err != nil {
				x = -1 << 40
			}
			o = append(o, x)
		}
		slices.Sort(o)
		return o
	}}
}

// a filter, seen as the bytes of its exported data
func twinBloom(f *bloom.BloomFilter, add string) *twin {
	look := func() (o []int) {
		for _, b := range f.Data() {
			o = append(o, int(b))
		}
		return
	}
	return &twin{m: look(), ops: []twinOp{
		{"Add", func(t *twin) {
			for k := 0; k < 8; k++ {
				f.Add(add + fmt.Sprint(k))
			}
			t.m = look()
			for k := 0; k < 8; k++ {
				if !f.Contains(add + fmt.Sprint(k)) {
					t.m = nil
				}
			}
		}},
		{"nothing", func(t *twin) {}},
	}, look: look}
}

// copySizes: originals of every size and their copies, each changed in every way, one before the other.
func copySizes(c Ctx) *core.Enum {
	var sizes []int
	for n := 0; n <= 20; n++ {
		sizes = append(sizes, n)
	}
	for p := 32; p <= c.Pick(1<<12, 1<<16); p *= 2 {
		sizes = append(sizes, p-1, p, p+1)
	}
	sizes = append(sizes, 100, 1000, 5000, 10000)
	if c.Pick(0, 1) > 0 {
		sizes = append(sizes, 20000, 100000, 200000)
	}
	ident := func(n int) []int {
		m := make([]int, n)
		for i := range m {
			m[i] = i
		}
		return m
	}
	vec := func(reserve, shrink int) func(n int) (*twin, *twin) {
		return func(n int) (*twin, *twin) {
			v := vector.New[int](vector.WithCapacity(reserve * 2 * n))
			for i := 0; i < n; i++ {
				v.PushBack(i)
			}
			if shrink > 0 {
				v.ShrinkToFit()
			}
			return twinVector(v, ident(n)), twinVector(vector.NewFromVector(v), ident(n))
		}
	}
	sets := func(which int) func(n int) (*twin, *twin) {
		return func(n int) (*twin, *twin) {
			a, b := set.New[int](comparator.IntComparator), set.New[int](comparator.IntComparator)
			for i := 0; i < n; i++ {
				a.Insert(i)
				if which == 1 { // in common
					b.Insert(i)
				}
			}
			var r *set.Set[int]
			switch which {
			case 0:
				r = a.Union(b)
			case 1:
				r = a.Intersect(b)
			case 2:
				r = a.Diff(b)
			case 3:
				r = b.Union(a)
			case 4:
				r = a.Union(a)
			case 5:
				r = a.Intersect(a)
			}
			return twinSet(a, ident(n)), twinSet(r, ident(n))
		}
	}
	kinds := []struct {
		name string
		max  int
		mk   func(n int) (*twin, *twin)
	}{
		{"vector and copy", 1 << 20, vec(0, 0)},
		{"vector with capacity to spare and copy", 1 << 20, vec(1, 0)},
		{"vector without capacity to spare and copy", 1 << 20, vec(0, 1)},
		{"array and copy", 1 << 20, func(n int) (*twin, *twin) {
			a := array.New[int](n)
			for i := 0; i < n; i++ {
				a.Set(i, i)
			}
			return twinArray(a, ident(n)), twinArray(array.NewFromArray(a), ident(n))
		}},
		{"list and list it was copied to", 1 << 14, func(n int) (*twin, *twin) {
			a, b := bidlist.New[int](), bidlist.New[int]()
			for i := 0; i < n; i++ {
				a.PushBack(i)
			}
			b.PushBackList(a)
			return twinList(a, ident(n)), twinList(b, ident(n))
		}},
		{"list and list it was copied to the front of", 1 << 14, func(n int) (*twin, *twin) {
			a, b := bidlist.New[int](), bidlist.New[int]()
			for i := 0; i < n; i++ {
				a.PushBack(i)
			}
			b.PushFrontList(a)
			return twinList(a, ident(n)), twinList(b, ident(n))
		}},
		{"set and union with an empty one", 1 << 12, sets(0)},
		{"set and intersection with an equal one", 1 << 12, sets(1)},
		{"set and difference from an empty one", 1 << 12, sets(2)},
		{"set and union of an empty one with it", 1 << 12, sets(3)},
		{"set and union with itself", 1 << 12, sets(4)},
		{"set and intersection with itself", 1 << 12, sets(5)},
		{"skip list and its keys", 1 << 12, func(n int) (*twin, *twin) {
			l := skiplist.New[int, int](comparator.IntComparator)
			for i := 0; i < n; i++ {
				l.Insert(i, i)
			}
			return twinSkip(l, ident(n)), twinSlice(l.Keys())
		}},
		{"hash trie and its keys", 1 << 12, func(n int) (*twin, *twin) {
			h := hamt.New[int]()
			for i := 0; i < n; i++ {
				h.Insert(hamt.Key(fmt.Sprint(i)), i)
			}
			keys, p := h.Keys(), ident(n)
			t := twinSlice(p)
			t.ops = t.ops[:1]
			do := t.ops[0].do
			t.ops[0].do = func(t *twin) { // the list, not the bytes of the keys
				do(t)
				for i := range keys {
					keys[i] = hamt.Key("x")
				}
			}
			return twinHamt(h, ident(n)), t
		}},
		{"Bloom filter and filter from its data", 1 << 15, func(n int) (*twin, *twin) {
			f := bloom.New(uint64(n+1)*8, 3)
			f.Add("a")
			g := bloom.NewFromData(f.Data())
			return twinBloom(f, "left"), twinBloom(g, "right")
		}},
		{"two Bloom filters from the same data", 1 << 15, func(n int) (*twin, *twin) {
			f := bloom.New(uint64(n+1)*8, 3)
			f.Add("a")
			d := f.Data()
			return twinBloom(bloom.NewFromData(d), "left"), twinBloom(bloom.NewFromData(d), "right")
		}},
		{"Bloom filter and its exported data", 1 << 15, func(n int) (*twin, *twin) {
			f := bloom.New(uint64(n+1)*8, 3)
			f.Add("a")
			d := f.Data()
			look := func() (o []int) {
				for _, b := range d {
					o = append(o, int(b))
				}
				return
			}
			return twinBloom(f, "left"), &twin{m: look(), ops: []twinOp{{"overwrite the data", func(t *twin) {
				for i := range d {
					d[i] ^= 0xff
				}
				t.m = look()
			}}}, look: look}
		}},
	}
	type job struct{ kind, size, first, second, order int }
	var jobs []job
	for k := range kinds {
		a, b := kinds[k].mk(3)
		for _, n := range sizes {
			if n > kinds[k].max {
				continue
			}
			for i := range a.ops {
				for j := range b.ops {
					for o := 0; o < 2; o++ {
						jobs = append(jobs, job{k, n, i, j, o})
					}
				}
			}
		}
	}
	return &core.Enum{Name: "copies of every size, each side changed in every way", N: int64(len(jobs)),
		Show: func(i int64) string {
			j := jobs[i]
			a, b := kinds[j.kind].mk(3)
			s := []string{"original " + a.ops[j.first].name, "copy " + b.ops[j.second].name}
			if j.order == 1 {
				s[0], s[1] = s[1], s[0]
			}
			return fmt.Sprintf("%s of size %d: %s, then %s", kinds[j.kind].name, j.size, s[0], s[1])
		},
		Run: func(w *core.Worker, i int64) (int64, error) {
			w.Tick()
			j := jobs[i]
			a, b := kinds[j.kind].mk(j.size)
			look := func(when string) error {
				for k, t := range []*twin{a, b} {
					if got := t.look(); !slices.Equal(got, t.m) {
						p := 0
						for p < len(got) && p < len(t.m) && got[p] == t.m[p] {
							p++
						}
						return errf("%s the %s differs from what it should be at %d (%d elements, want %d)", when, []string{"original", "copy"}[k], p, len(got), len(t.m))
					}
				}
				return nil
			}
			do := []func(){func() { a.ops[j.first].do(a) }, func() { b.ops[j.second].do(b) }}
			if j.order == 1 {
				do[0], do[1] = do[1], do[0]
			}
			if err := look("at first"); err != nil {
				return 1, err
			}
			do[0]()
			if err := look("after the first change"); err != nil {
				return 2, err
			}
			do[1]()
			return 2, look("in the end")
		}}
}

func init() {
	extend("P35", func(c Ctx) []any {
		if c.Variant != "plain" {
			return nil
		}
		return []any{copySizes(c)}
	})
}
