package conc

import (
	"fmt"
	"slices"

	"github.com/liyue201/gostl/algorithm"
	"github.com/liyue201/gostl/algorithm/sort"
	"github.com/liyue201/gostl/ds/array"
	"github.com/liyue201/gostl/ds/bitmap"
	bloom "github.com/liyue201/gostl/ds/bloomfilter"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	treemap "github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/rbtree"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/ds/slice"
	"github.com/liyue201/gostl/ds/vector"
	"github.com/liyue201/gostl/utils/iterator"
)

// Many readers of one container without locks. Every reading call of a kind may
// run beside every other one; what it returns is what it returns on a container
// of its own that nobody else looks at.

// reader is one reading call.
type reader struct {
	name string
	f    func() string
}

type readModel struct {
	k    *Kind
	init int
	seen map[[2]int]string // what calls return, alone
}

func (m *readModel) Clone() Model  { return m }
func (m *readModel) Final() string { return "" }
func (m *readModel) Apply(o *Op, ev int, part string) string {
	k := [2]int{m.init, o.Code}
	if _, ok := m.seen[k]; !ok {
		m.seen[k], _ = m.k.Mk(m.init).Do(o)
	}
	return m.seen[k]
}

func readInit(i int) []int {
	if i < 4 {
		return inits(i)
	}
	s := make([]int, 300)
	for i := range s {
		s[i] = i * 7 % 300
	}
	return s
}

// readKind: mk makes a container with the given contents and lists its reading calls.
func readKind(name string, mk func(s []int) []reader) *Kind {
	k := &Kind{Name: name, Inits: 5}
	for i, r := range mk(nil) {
		k.Ops = append(k.Ops, Op{Code: i, Name: r.name, Events: 1})
	}
	k.Mk = func(init int) *SUT {
		rs := mk(slices.Clone(readInit(init)))
		return &SUT{Do: func(o *Op) (string, func() string) { return rs[o.Code].f(), nil }, Final: func() string { return "" }}
	}
	seen := map[[2]int]string{}
	k.Model = func(init int) Model { return &readModel{k, init, seen} }
	return k
}

func intCmp(a, b int) int { return a - b }

type stepper[T any] interface {
	IsValid() bool
	Next() iterator.ConstIterator[T]
	Value() T
}

func walk[T any](it iterator.ConstIterator[T]) string {
	var s []T
	for ; it.IsValid(); it = it.Next() {
		s = append(s, it.Value())
	}
	return fmt.Sprint(s)
}

func walkBack[T any](it iterator.ConstBidIterator[T]) string {
	var s []T
	for it.IsValid() {
		s = append(s, it.Value())
		it = it.Prev().(iterator.ConstBidIterator[T])
	}
	return fmt.Sprint(s)
}

func at(it iterator.ConstIterator[int]) string {
	if !it.IsValid() {
		return "none"
	}
	return fmt.Sprint(it.Value())
}

// some of a container's calls panic on empty ones
func nonempty(n func() int, f func() int) func() string {
	return func() string {
		if n() == 0 {
			return "empty"
		}
		return fmt.Sprint(f())
	}
}

// forward: the reading algorithms on any iterators.
func forward(first, last func() iterator.ConstIterator[int]) []reader {
	odd := func(it iterator.ConstIterator[int]) bool { return it.Value()%2 == 1 }
	return []reader{
		{"walk", func() string { return walk(first()) }},
		{"Count", func() string { return fmt.Sprint(algorithm.Count(first(), last(), 4, intCmp)) }},
		{"CountIf", func() string { return fmt.Sprint(algorithm.CountIf(first(), last(), odd)) }},
		{"Find", func() string {
			it := algorithm.Find(first(), last(), 4, intCmp)
			return fmt.Sprint(it.Equal(last()), it.IsValid())
		}},
		{"FindIf", func() string { return fmt.Sprint(algorithm.FindIf(first(), last(), odd).IsValid()) }},
		{"MaxElement", func() string { return at(algorithm.MaxElement(first(), last(), intCmp)) }},
		{"MinElement", func() string { return at(algorithm.MinElement(first(), last(), intCmp)) }},
		{"AnyOf, AllOf, NoneOf", func() string {
			return fmt.Sprint(algorithm.AnyOf(first(), last(), odd), algorithm.AllOf(first(), last(), odd), algorithm.NoneOf(first(), last(), odd))
		}},
	}
}

// random: the reading algorithms on random access iterators, and the calls of one
// iterator that every reader shares.
func random(first, last func() iterator.RandomAccessIterator[int], n func() int) []reader {
	shared, end := first(), last()
	return append(forward(func() iterator.ConstIterator[int] { return first() }, func() iterator.ConstIterator[int] { return last() }), []reader{
		{"walk backwards", func() string {
			if n() == 0 {
				return ""
			}
			return walkBack[int](first().IteratorAt(n() - 1))
		}},
		{"BinarySearch", func() string { return fmt.Sprint(sort.BinarySearch(first(), last(), 4, intCmp)) }},
		{"LowerBound", func() string { return fmt.Sprint(sort.LowerBound(first(), last(), 4, intCmp).Position()) }},
		{"UpperBound", func() string { return fmt.Sprint(sort.UpperBound(first(), last(), 4, intCmp).Position()) }},
		{"a shared iterator", func() string {
			c := shared.Clone()
			s := fmt.Sprint(shared.IsValid(), shared.Position(), shared.Equal(end), shared.Equal(c), end.IsValid())
			if n() > 0 {
				s += fmt.Sprint(shared.Value(), shared.IteratorAt(n()-1).Value(), walk(c))
			}
			return s
		}},
	}...)
}

func keyed[I interface {
	IsValid() bool
	Key() int
}](it I) string {
	if !it.IsValid() {
		return "none"
	}
	return fmt.Sprint(it.Key())
}

func readKinds() []*Kind {
	type ra = iterator.RandomAccessIterator[int]
	type ci = iterator.ConstIterator[int]
	return []*Kind{
		readKind("vector, readers", func(s []int) []reader {
			v := vector.New[int]()
			for _, x := range s {
				v.PushBack(x)
			}
			return append([]reader{
				{"Size, Capacity, Empty", func() string { return fmt.Sprint(v.Size(), v.Capacity() >= v.Size(), v.Empty()) }},
				{"Front", nonempty(v.Size, v.Front)}, {"Back", nonempty(v.Size, v.Back)},
				{"At", nonempty(v.Size, func() int { return v.At(v.Size() / 2) })},
				{"Data", func() string { return fmt.Sprint(v.Data()) }},
				{"String", v.String},
				{"NewFromVector", func() string { c := vector.NewFromVector(v); c.PushBack(1); return c.String() }},
				{"Begin, End, First, Last, IterAt", func() string {
					return fmt.Sprint(v.Begin().Position(), v.End().Position(), v.First().Position(), v.Last().Position(), v.IterAt(v.Size()/2).Position())
				}},
			}, random(func() ra { return v.Begin() }, func() ra { return v.End() }, v.Size)...)
		}),
		readKind("array, readers", func(s []int) []reader {
			v := array.New[int](len(s))
			for i, x := range s {
				v.Set(i, x)
			}
			return append([]reader{
				{"Size, Empty", func() string { return fmt.Sprint(v.Size(), v.Empty()) }},
				{"Front", nonempty(v.Size, v.Front)}, {"Back", nonempty(v.Size, v.Back)},
				{"At", nonempty(v.Size, func() int { return v.At(v.Size() / 2) })},
				{"Data", func() string { return fmt.Sprint(v.Data()) }},
				{"String", v.String},
				{"NewFromArray", func() string { c := array.NewFromArray(v); c.Fill(1); return c.String() }},
				{"Begin, End, First, Last, IterAt", func() string {
					return fmt.Sprint(v.Begin().Position(), v.End().Position(), v.First().Position(), v.Last().Position(), v.IterAt(v.Size()/2).Position())
				}},
			}, random(func() ra { return v.Begin() }, func() ra { return v.End() }, v.Size)...)
		}),
		readKind("slice wrapper, readers", func(s []int) []reader {
			v := slice.NewSliceWrapper(s)
			return append([]reader{
				{"Len", func() string { return fmt.Sprint(v.Len()) }},
				{"At", nonempty(v.Len, func() int { return v.At(v.Len() / 2) })},
				{"another wrapper", func() string { w := slice.NewSliceWrapper(s); return walk[int](w.Begin()) }},
			}, random(func() ra { return v.Begin() }, func() ra { return v.End() }, v.Len)...)
		}),
		readKind("deque, readers", func(s []int) []reader {
			v := deque.New[int]()
			for i := len(s) / 2; i > 0; i-- {
				v.PushFront(s[i-1])
			}
			for _, x := range s[len(s)/2:] {
				v.PushBack(x)
			}
			return append([]reader{
				{"Size, Empty", func() string { return fmt.Sprint(v.Size(), v.Empty()) }},
				{"Front", nonempty(v.Size, v.Front)}, {"Back", nonempty(v.Size, v.Back)},
				{"At", func() string {
					r := 0
					for i := 0; i < v.Size(); i += 7 {
						r += v.At(i) * (i + 1)
					}
					return fmt.Sprint(r)
				}},
				{"String", v.String},
				{"Begin, End, First, Last, IterAt", func() string {
					return fmt.Sprint(v.Begin().Position(), v.End().Position(), v.First().Position(), v.Last().Position(), v.IterAt(v.Size()/2).Position())
				}},
			}, random(func() ra { return v.Begin() }, func() ra { return v.End() }, v.Size)...)
		}),
		readKind("doubly linked list, readers", func(s []int) []reader {
			v := bidlist.New[int]()
			for _, x := range s {
				v.PushBack(x)
			}
			mid := v.FrontNode()
			for i := 0; i < len(s)/2; i++ {
				mid = mid.Next()
			}
			first := func() ci { return bidlist.NewIterator(v.FrontNode()) }
			last := func() ci { return bidlist.NewIterator[int](nil) }
			shared := first()
			return append([]reader{
				{"Len, Size, Empty", func() string { return fmt.Sprint(v.Len(), v.Size(), v.Empty()) }},
				{"Front", nonempty(v.Len, v.Front)}, {"Back", nonempty(v.Len, v.Back)},
				{"FrontNode, BackNode", func() string { return fmt.Sprint(v.FrontNode() == nil, v.BackNode() == nil) }},
				{"from a node to the end", func() string {
					r := []int{}
					for n := mid; n != nil; n = n.Next() {
						r = append(r, n.Value)
					}
					return fmt.Sprint(r)
				}},
				{"from a node to the front", func() string {
					r := []int{}
					for n := mid; n != nil; n = n.Prev() {
						r = append(r, n.Value)
					}
					return fmt.Sprint(r)
				}},
				{"String", v.String},
				{"Traversal", func() string {
					r := 0
					v.Traversal(func(x int) bool { r = r*3 + x; return true })
					return fmt.Sprint(r)
				}},
				{"PushBackList, PushFrontList into another", func() string {
					w := bidlist.New[int]()
					w.PushBackList(v)
					w.PushFrontList(v)
					return w.String()
				}},
				{"walk backwards", func() string {
					if v.Len() == 0 {
						return ""
					}
					return walkBack[int](bidlist.NewIterator(v.BackNode()))
				}},
				{"a shared iterator", func() string {
					return at(shared) + fmt.Sprint(shared.Equal(last()), walk(shared.Clone()))
				}},
			}, forward(first, last)...)
		}),
		readKind("singly linked list, readers", func(s []int) []reader {
			v := simplelist.New[int]()
			for _, x := range s {
				v.PushBack(x)
			}
			first := func() ci { return simplelist.NewIterator(v.FrontNode()) }
			last := func() ci { return simplelist.NewIterator[int](nil) }
			shared := first()
			return append([]reader{
				{"Len", func() string { return fmt.Sprint(v.Len()) }},
				{"FrontNode, BackNode", func() string { return fmt.Sprint(v.FrontNode() == nil, v.BackNode() == nil) }},
				{"nodes", func() string {
					r := []int{}
					for n := v.FrontNode(); n != nil; n = n.Next() {
						r = append(r, n.Value)
					}
					return fmt.Sprint(r)
				}},
				{"String", v.String},
				{"Traversal", func() string {
					r := 0
					v.Traversal(func(x int) bool { r = r*3 + x; return true })
					return fmt.Sprint(r)
				}},
				{"a shared iterator", func() string {
					return at(shared) + fmt.Sprint(shared.Equal(last()), walk(shared.Clone()))
				}},
			}, forward(first, last)...)
		}),
		readKind("red-black tree, readers", func(s []int) []reader {
			v := rbtree.New[int, int](intCmp)
			for i, x := range s {
				v.Insert(x, i)
			}
			node := func(n *rbtree.Node[int, int]) string {
				if n == nil {
					return "none"
				}
				return fmt.Sprint(n.Key(), n.Value())
			}
			shared, last := v.IterFirst(), v.IterLast()
			return append([]reader{
				{"Size, Empty", func() string { return fmt.Sprint(v.Size(), v.Empty()) }},
				{"Find", func() string { return fmt.Sprint(v.Find(4)) }},
				{"Find absent", func() string { return fmt.Sprint(v.Find(-4)) }},
				{"FindNode", func() string { return node(v.FindNode(9)) }},
				{"FindLowerBoundNode", func() string { return node(v.FindLowerBoundNode(4)) }},
				{"FindUpperBoundNode", func() string { return node(v.FindUpperBoundNode(4)) }},
				{"Begin, RBegin, First, Last", func() string {
					return node(v.Begin()) + node(v.RBegin()) + node(v.First()) + node(v.Last())
				}},
				{"Compare", func() string { return fmt.Sprint(v.Compare(1, 2)) }},
				{"Traversal", func() string {
					r := 0
					v.Traversal(func(k, x int) bool { r = r*3 + x; return true })
					return fmt.Sprint(r)
				}},
				{"IsRbTree", func() string { return fmt.Sprint(v.IsRbTree()) }},
				{"nodes", func() string {
					r := ""
					for n := v.First(); n != nil; n = n.Next() {
						r += node(n)
					}
					for n := v.Last(); n != nil; n = n.Prev() {
						r += node(n)
					}
					return r
				}},
				{"walk backwards", func() string {
					if v.Empty() {
						return ""
					}
					return walkBack[int](v.IterLast())
				}},
				{"a shared iterator", func() string {
					return at(shared) + keyed(last) + fmt.Sprint(shared.Equal(last), walk(shared.Clone()))
				}},
			}, forward(func() ci { return v.IterFirst() }, func() ci { return rbtree.NewIterator[int, int](nil) })...)
		}),
		readKind("iterators of maps and sets, readers", func(s []int) []reader {
			m, mm, a, ms := treemap.New[int, int](intCmp), treemap.NewMultiMap[int, int](intCmp), set.New[int](intCmp), set.NewMultiSet[int](intCmp)
			for i, x := range s {
				m.Insert(x, i)
				mm.Insert(x/2, i)
				a.Insert(x)
				ms.Insert(x / 2)
			}
			mi, mmi, si, msi := m.First(), mm.First(), a.First(), ms.First()
			return []reader{
				{"walk a map", func() string { return walk[int](m.First()) + walkBack[int](m.Last()) + keyed(m.Find(4)) }},
				{"walk a multimap", func() string { return walk[int](mm.First()) + walkBack[int](mm.Last()) + keyed(mm.Find(2)) }},
				{"walk a set", func() string { return walk[int](a.First()) + walkBack[int](a.Last()) + at(a.Find(4)) }},
				{"walk a multiset", func() string { return walk[int](ms.First()) + walkBack[int](ms.Last()) + at(ms.Find(2)) }},
				{"bounds of a map", func() string { return keyed(m.LowerBound(4)) + keyed(m.UpperBound(4)) + keyed(m.Begin()) }},
				{"bounds of a multimap", func() string { return keyed(mm.LowerBound(2)) + keyed(mm.UpperBound(2)) + keyed(mm.Begin()) }},
				{"bounds of a set", func() string { return at(a.LowerBound(4)) + at(a.UpperBound(4)) + at(a.Begin()) }},
				{"bounds of a multiset", func() string { return at(ms.LowerBound(2)) + at(ms.UpperBound(2)) + at(ms.Begin()) }},
				{"a shared iterator of a map", func() string {
					return at(mi) + keyed(mi) + fmt.Sprint(mi.Equal(m.First()), walk(mi.Clone()))
				}},
				{"a shared iterator of a multimap", func() string {
					return at(mmi) + keyed(mmi) + fmt.Sprint(mmi.Equal(mm.First()), walk(mmi.Clone()))
				}},
				{"a shared iterator of a set", func() string { return at(si) + fmt.Sprint(si.Equal(a.First()), walk(si.Clone())) }},
				{"a shared iterator of a multiset", func() string { return at(msi) + fmt.Sprint(msi.Equal(ms.First()), walk(msi.Clone())) }},
			}
		}),
		readKind("bitmap, readers", func(s []int) []reader {
			v := bitmap.New(305)
			for _, x := range s {
				v.Set(uint64(x))
			}
			return []reader{
				{"Size", func() string { return fmt.Sprint(v.Size()) }},
				{"IsSet", func() string {
					r := ""
					for i := uint64(0); i < 400; i += 3 {
						r += fmt.Sprint(v.IsSet(i))
					}
					return r
				}},
				{"Data", func() string { return fmt.Sprint(v.Data()) }},
				{"NewFromData", func() string { return fmt.Sprint(bitmap.NewFromData(v.Data()).IsSet(9)) }},
			}
		}),
		readKind("bloom filter, readers", func(s []int) []reader {
			f := bloom.New(1000, 3)
			for _, x := range s {
				f.Add(fmt.Sprint(x))
			}
			data := f.Data()
			return []reader{
				{"Contains", func() string { return fmt.Sprint(f.Contains("4"), f.Contains("7"), f.Contains("-1")) }},
				{"Data", func() string { return fmt.Sprint(f.Data()) }},
				{"NewFromData", func() string {
					g := bloom.NewFromData(data)
					return fmt.Sprint(g.Contains("4"), g.Contains("7"), g.Contains("-1"))
				}},
			}
		}),
	}
}

// halves: calls on the first and on the second half of six elements.
func halfKinds() (ks []*Kind) {
	type ra = iterator.RandomAccessIterator[int]
	names := []string{"Sort", "Stable", "NthElement", "Reverse", "NextPermutation", "Swap", "set", "read"}
	var ops []Op
	for h, side := range []string{"first", "second"} {
		for c, n := range names {
			ops = append(ops, Op{Code: c, A: h, Name: n + " on the " + side + " half", Events: 1, Mut: n != "read"})
		}
	}
	h := inits(3)
	kind := func(name string, big int, mk func(s []int) (first ra, at func(i int) int)) {
		pad := big // so that the halves lie in different places of a deque's segments
		k := &Kind{Name: name, Inits: 1, Ops: ops, Model: func(int) Model { return &halfModel{slices.Clone(h)} }, Bad: func(a, b *Op) bool { return a.A == b.A }}
		k.Mk = func(int) *SUT {
			b, get := mk(append(make([]int, pad), h...))
			return &SUT{Do: func(o *Op) (string, func() string) {
				x, y := b.IteratorAt(pad+3*o.A), b.IteratorAt(pad+3*o.A+3)
				switch names[o.Code] {
				case "Sort":
					sort.Sort(x, y, intCmp)
				case "Stable":
					sort.Stable(x, y, intCmp)
				case "NthElement":
					sort.NthElement(x, y, 1, intCmp)
					r := fmt.Sprint(x.IteratorAt(pad + 3*o.A + 1).Value())
					sort.Sort(x, y, intCmp)
					return r, nil
				case "Reverse":
					algorithm.Reverse[int](x, y)
				case "NextPermutation":
					return fmt.Sprint(sort.NextPermutation(x, y, intCmp)), nil
				case "Swap":
					algorithm.Swap[int](x, b.IteratorAt(pad+3*o.A+2))
				case "set":
					x.SetValue(100)
				case "read":
					return fmt.Sprint(algorithm.Count[int](x, y, 4, intCmp), algorithm.MaxElement[int](x, y, intCmp).Value(), sort.BinarySearch(x, y, 1000, intCmp)), nil
				}
				return "", nil
			}, Final: func() string {
				r := make([]int, len(h))
				for i := range r {
					r[i] = get(pad + i)
				}
				return show(r)
			}}
		}
		ks = append(ks, k)
	}
	kind("halves of a slice", 0, func(s []int) (ra, func(int) int) {
		return slice.NewSliceWrapper(s).Begin(), func(i int) int { return s[i] }
	})
	kind("halves of an array", 0, func(s []int) (ra, func(int) int) {
		a := array.New[int](len(s))
		for i, x := range s {
			a.Set(i, x)
		}
		return a.Begin(), a.At
	})
	kind("halves of a vector", 0, func(s []int) (ra, func(int) int) {
		v := vector.New[int]()
		for _, x := range s {
			v.PushBack(x)
		}
		return v.Begin(), v.At
	})
	for _, pad := range []int{0, 124, 125, 127} {
		kind(fmt.Sprintf("halves of the elements of a deque from %d on", pad), pad, func(s []int) (ra, func(int) int) {
			d := deque.New[int]()
			for _, x := range s {
				d.PushBack(x)
			}
			return d.Begin(), d.At
		})
	}
	return ks
}

type halfModel struct{ s []int }

func (m *halfModel) Clone() Model  { return &halfModel{slices.Clone(m.s)} }
func (m *halfModel) Final() string { return show(m.s) }
func (m *halfModel) Apply(o *Op, ev int, part string) string {
	s := m.s[3*o.A : 3*o.A+3]
	switch o.Code {
	case 0, 1:
		slices.Sort(s)
	case 2:
		slices.Sort(s)
		return fmt.Sprint(s[1])
	case 3:
		slices.Reverse(s)
	case 4:
		return fmt.Sprint(next(s))
	case 5:
		s[0], s[2] = s[2], s[0]
	case 6:
		s[0] = 100
	case 7:
		n := 0
		for _, x := range s {
			if x == 4 {
				n++
			}
		}
		return fmt.Sprint(n, slices.Max(s), false)
	}
	return ""
}

// readOnly keeps the calls that only read.
func readOnly(ks []*Kind) (r []*Kind) {
	for _, k := range ks {
		c := *k
		c.Ops, c.Core = nil, nil
		for _, o := range k.Ops {
			if !o.Mut {
				c.Ops = append(c.Ops, o)
			}
		}
		for i := range c.Ops {
			c.Core = append(c.Core, i)
		}
		if len(c.Ops) > 0 && k.Name[:min(len(k.Name), 10)] != "algorithms" {
			r = append(r, &c)
		}
	}
	return r
}
