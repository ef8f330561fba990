package conc

import (
	"fmt"
	"slices"

	"github.com/liyue201/gostl/algorithm"
	"github.com/liyue201/gostl/algorithm/hash"
	"github.com/liyue201/gostl/algorithm/sort"
	"github.com/liyue201/gostl/ds/array"
	"github.com/liyue201/gostl/ds/bitmap"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	"github.com/liyue201/gostl/ds/rbtree"
	"github.com/liyue201/gostl/ds/slice"
	"github.com/liyue201/gostl/ds/vector"
	"github.com/liyue201/gostl/utils/iterator"
)

// Containers without locks, and the algorithms: used by one thread each.

const (
	oPushFront = 100 + iota
	oPopBack
	oInsertAt
	oEraseAt
	oSet
	oSort
	oStable
	oNth
	oReverse
	oNext
	oLowerB
	oHash
)

var otherNames = map[int]string{oPushFront: "PushFront", oPopBack: "PopBack", oInsertAt: "insert at", oEraseAt: "erase at", oSet: "set at", oSort: "Sort", oStable: "Stable", oNth: "NthElement", oReverse: "Reverse", oNext: "NextPermutation", oLowerB: "LowerBound", oHash: "GenHashInts"}

func mko(code int, args ...int) (ops []Op) {
	if len(args) == 0 {
		args = []int{0}
	}
	for _, a := range args {
		ops = append(ops, Op{Code: code, A: a, Name: fmt.Sprintf("%s(%d)", otherNames[code], a), Events: 1, Mut: true})
	}
	return ops
}

type plainModel struct {
	s    []int
	sort bool // kept sorted
}

func (m *plainModel) Clone() Model  { return &plainModel{slices.Clone(m.s), m.sort} }
func (m *plainModel) Final() string { return show(m.s) }
func show(s []int) string           { return fmt.Sprint(append([]int{}, s...)) }
func (m *plainModel) Apply(o *Op, ev int, part string) string {
	n := len(m.s)
	at := func(i int) int { return min(max(i, 0), n-1) }
	switch o.Code {
	case oPush:
		m.s = append(m.s, o.V)
		if m.sort {
			slices.Sort(m.s)
		}
	case oPushFront:
		m.s = slices.Insert(m.s, 0, o.V)
	case oPop, oPopBack:
		if n == 0 {
			return "empty"
		}
		i := 0
		if o.Code == oPopBack {
			i = n - 1
		}
		r := fmt.Sprint(m.s[i])
		m.s = slices.Delete(m.s, i, i+1)
		return r
	case oInsertAt:
		m.s = slices.Insert(m.s, min(o.A, n), o.V)
	case oEraseAt:
		if n > 0 {
			m.s = slices.Delete(m.s, at(o.A), at(o.A)+1)
		}
	case oSet:
		if n > 0 {
			m.s[at(o.A)] = o.V
		}
	case oSize:
		return fmt.Sprint(n)
	case oClear:
		m.s = nil
	case oString:
		return show(m.s)
	case oSort, oStable:
		slices.Sort(m.s)
	case oNth:
		s := slices.Clone(m.s)
		slices.Sort(s)
		return fmt.Sprint(s[o.A])
	case oReverse:
		slices.Reverse(m.s)
	case oNext:
		return fmt.Sprint(next(m.s))
	case oLowerB:
		slices.Sort(m.s)
		return fmt.Sprint(slices.IndexFunc(append(slices.Clone(m.s), 1<<30), func(x int) bool { return x >= o.A }))
	case oHash:
		if hashed[o.A] == "" {
			hashed[o.A] = fmt.Sprint(hash.GenHashInts([]byte{byte(o.A)}, 9))
		}
		return hashed[o.A]
	}
	return ""
}

func next(s []int) bool {
	for i := len(s) - 2; i >= 0; i-- {
		if s[i] < s[i+1] {
			j := len(s) - 1
			for s[j] <= s[i] {
				j--
			}
			s[i], s[j] = s[j], s[i]
			slices.Reverse(s[i+1:])
			return true
		}
	}
	slices.Sort(s)
	return false
}

// hashed: what GenHashInts delivers when used alone
var hashed [3]string

func inits(i int) []int { return [][]int{nil, {7}, {3, 9, 4}, {5, 1, 8, 2, 6, 0}}[i] }

func otherKinds() []*Kind {
	model := func(sorted bool) func(int) Model {
		return func(i int) Model {
			m := &plainModel{slices.Clone(inits(i)), sorted}
			if sorted {
				slices.Sort(m.s)
			}
			return m
		}
	}
	pop := func(n int, f func() int) string {
		if n == 0 {
			return "empty"
		}
		return fmt.Sprint(f())
	}
	read := list(mk(oSize), mk(oString), mk(oClear))
	dops := list(mk(oPush), mk(oPop), mko(oPushFront), mko(oPopBack), mko(oInsertAt, 1), mko(oEraseAt, 1), mko(oSet, 1), read)
	vops := list(mk(oPush), mk(oPop), mko(oPopBack), mko(oInsertAt, 1), mko(oEraseAt, 1), mko(oSet, 1), read)
	lops := list(mk(oPush), mk(oPop), mko(oPushFront), mko(oPopBack), mk(oSize), mk(oString), mk(oClear))
	sops := list(mk(oPush), mk(oPop), mko(oPushFront), mk(oSize), mk(oString))
	aops := list(mko(oSort), mko(oStable), mko(oNth, 0, 3), mko(oReverse), mko(oNext), mko(oLowerB, 4), mko(oHash, 0, 1, 2), mko(oSet, 1))
	tops := list(mk(oPush), mk(oPop), mk(oSize), mk(oClear), mk(oString))
	cmp := func(a, b int) int { return a - b }
	return []*Kind{
		{Name: "deque", Inits: 4, Ops: dops, Model: model(false), Mk: func(init int) *SUT {
			d := deque.New[int]()
			for _, x := range inits(init) {
				d.PushBack(x)
			}
			all := func() string {
				var s []int
				for i := 0; i < d.Size(); i++ {
					s = append(s, d.At(i))
				}
				return show(s)
			}
			return &SUT{Do: func(o *Op) (string, func() string) {
				n := d.Size()
				switch o.Code {
				case oPush:
					d.PushBack(o.V)
				case oPushFront:
					d.PushFront(o.V)
				case oPop:
					return pop(n, d.PopFront), nil
				case oPopBack:
					return pop(n, d.PopBack), nil
				case oInsertAt:
					d.Insert(min(o.A, n), o.V)
				case oEraseAt:
					if n > 0 {
						d.EraseAt(min(o.A, n-1))
					}
				case oSet:
					if n > 0 {
						d.Set(min(o.A, n-1), o.V)
					}
				case oSize:
					return fmt.Sprint(n), nil
				case oClear:
					d.Clear()
				case oString:
					return d.String(), nil
				}
				return "", nil
			}, Final: all}
		}},
		{Name: "vector", Inits: 4, Ops: vops, Model: model(false), Mk: func(init int) *SUT {
			d := vector.New[int]()
			for _, x := range inits(init) {
				d.PushBack(x)
			}
			return &SUT{Do: func(o *Op) (string, func() string) {
				n := d.Size()
				switch o.Code {
				case oPush:
					d.PushBack(o.V)
				case oPop:
					return pop(n, func() int { x := d.Front(); d.EraseAt(0); return x }), nil
				case oPopBack:
					return pop(n, d.PopBack), nil
				case oInsertAt:
					d.InsertAt(min(o.A, n), o.V)
				case oEraseAt:
					if n > 0 {
						d.EraseAt(min(o.A, n-1))
					}
				case oSet:
					if n > 0 {
						d.SetAt(min(o.A, n-1), o.V)
					}
				case oSize:
					return fmt.Sprint(n), nil
				case oClear:
					d.Clear()
				case oString:
					return d.String(), nil
				}
				return "", nil
			}, Final: func() string { return show(d.Data()) }}
		}},
		{Name: "doubly linked list", Inits: 4, Ops: lops, Model: model(false), Mk: func(init int) *SUT {
			d := bidlist.New[int]()
			for _, x := range inits(init) {
				d.PushBack(x)
			}
			return &SUT{Do: func(o *Op) (string, func() string) {
				n := d.Len()
				switch o.Code {
				case oPush:
					d.PushBack(o.V)
				case oPushFront:
					d.PushFront(o.V)
				case oPop:
					return pop(n, d.PopFront), nil
				case oPopBack:
					return pop(n, d.PopBack), nil
				case oSize:
					return fmt.Sprint(n), nil
				case oClear:
					d.Clear()
				case oString:
					return d.String(), nil
				}
				return "", nil
			}, Final: func() string {
				var s []int
				d.Traversal(func(x int) bool { s = append(s, x); return true })
				return show(s)
			}}
		}},
		{Name: "singly linked list", Inits: 4, Ops: sops, Model: model(false), Mk: func(init int) *SUT {
			d := simplelist.New[int]()
			for _, x := range inits(init) {
				d.PushBack(x)
			}
			return &SUT{Do: func(o *Op) (string, func() string) {
				switch o.Code {
				case oPush:
					d.PushBack(o.V)
				case oPushFront:
					d.PushFront(o.V)
				case oPop:
					return pop(d.Len(), func() int { return d.Remove(nil, d.FrontNode()) }), nil
				case oSize:
					return fmt.Sprint(d.Len()), nil
				case oString:
					return d.String(), nil
				}
				return "", nil
			}, Final: func() string {
				var s []int
				d.Traversal(func(x int) bool { s = append(s, x); return true })
				return show(s)
			}}
		}},
		{Name: "bitmap", Inits: 4, Ops: tops, Model: func(i int) Model { return &bitSetModel{bitSet(i)} }, Mk: func(init int) *SUT {
			d := bitmap.New(128)
			for _, x := range inits(init) {
				d.Set(uint64(x))
			}
			all := func() string {
				var s []int
				for i := uint64(0); i < d.Size(); i++ {
					if d.IsSet(i) {
						s = append(s, int(i))
					}
				}
				return show(s)
			}
			return &SUT{Do: func(o *Op) (string, func() string) {
				switch o.Code {
				case oPush:
					d.Set(uint64(o.V))
				case oPop:
					d.Unset(9)
				case oSize:
					return fmt.Sprint(d.Size()), nil
				case oClear:
					d.Clear()
				case oString:
					return all(), nil
				}
				return "", nil
			}, Final: all}
		}},
		{Name: "red-black tree", Inits: 4, Ops: tops, Model: model(true), Mk: func(init int) *SUT {
			d := rbtree.New[int, int](cmp)
			for _, x := range inits(init) {
				d.Insert(x, x)
			}
			all := func() string {
				var s []int
				d.Traversal(func(k, v int) bool { s = append(s, v); return true })
				return show(s)
			}
			return &SUT{Do: func(o *Op) (string, func() string) {
				switch o.Code {
				case oPush:
					d.Insert(o.V, o.V)
				case oPop:
					return pop(d.Size(), func() int { n := d.Begin(); x := n.Key(); d.Delete(n); return x }), nil
				case oSize:
					return fmt.Sprint(d.Size()), nil
				case oClear:
					d.Clear()
				case oString:
					return all(), nil
				}
				return "", nil
			}, Final: all}
		}},
		algorithms("algorithms on slices", aops, model(false), func(s []int) (iterator.RandomAccessIterator[int], iterator.RandomAccessIterator[int], func() []int) {
			w := slice.NewSliceWrapper(s)
			return w.Begin(), w.End(), func() []int { return s }
		}),
		algorithms("algorithms on arrays", aops, model(false), func(s []int) (iterator.RandomAccessIterator[int], iterator.RandomAccessIterator[int], func() []int) {
			a := array.New[int](len(s))
			for i, x := range s {
				a.Set(i, x)
			}
			return a.Begin(), a.End(), a.Data
		}),
	}
}

func algorithms(name string, ops []Op, model func(int) Model, mk func([]int) (a, b iterator.RandomAccessIterator[int], s func() []int)) *Kind {
	cmp := func(a, b int) int { return a - b }
	return &Kind{Name: name, Inits: 1, Ops: ops, Model: func(int) Model { return model(3) }, Mk: func(init int) *SUT {
		a, b, all := mk(slices.Clone(inits(3)))
		return &SUT{Do: func(o *Op) (string, func() string) {
			switch o.Code {
			case oSort:
				sort.Sort(a, b, cmp)
			case oStable:
				sort.Stable(a, b, cmp)
			case oNth:
				x, y, _ := mk(slices.Clone(all()))
				sort.NthElement(x, y, o.A, cmp)
				return fmt.Sprint(x.IteratorAt(o.A).Value()), nil
			case oReverse:
				algorithm.Reverse(a, b)
			case oNext:
				return fmt.Sprint(sort.NextPermutation(a, b, cmp)), nil
			case oLowerB:
				sort.Sort(a, b, cmp)
				return fmt.Sprint(sort.LowerBound(a, b, o.A, cmp).Position()), nil
			case oHash:
				return fmt.Sprint(hash.GenHashInts([]byte{byte(o.A)}, 9)), nil
			case oSet:
				a.IteratorAt(o.A).SetValue(o.V)
			}
			return "", nil
		}, Final: func() string { return show(all()) }}
	}}
}

type bitSetModel struct{ s [128]bool }

func bitSet(i int) (s [128]bool) {
	for _, x := range inits(i) {
		s[x] = true
	}
	return s
}
func (m *bitSetModel) Clone() Model { x := *m; return &x }
func (m *bitSetModel) Final() string {
	var s []int
	for i, b := range m.s {
		if b {
			s = append(s, i)
		}
	}
	return show(s)
}
func (m *bitSetModel) Apply(o *Op, ev int, part string) string {
	switch o.Code {
	case oPush:
		m.s[o.V] = true
	case oPop:
		m.s[9] = false
	case oSize:
		return "128"
	case oClear:
		m.s = [128]bool{}
	case oString:
		return m.Final()
	}
	return ""
}
