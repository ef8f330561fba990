package props

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"slices"

	"github.com/liyue201/gostl/algorithm"
	asort "github.com/liyue201/gostl/algorithm/sort"
	"github.com/liyue201/gostl/ds/array"
	"github.com/liyue201/gostl/ds/container"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/hamt"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	treemap "github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/priorityqueue"
	"github.com/liyue201/gostl/ds/queue"
	"github.com/liyue201/gostl/ds/rbtree"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/ds/skiplist"
	"github.com/liyue201/gostl/ds/slice"
	"github.com/liyue201/gostl/ds/stack"
	"github.com/liyue201/gostl/ds/vector"
	"github.com/liyue201/gostl/utils/iterator"
	"verifmc/core"
)

// The containers are generic: what they promise holds for values of every type, also ones that cannot be compared, ones
// that are nil and ones that differ from themselves. Here short histories are run over a few values of such types.

// pool is a type and values of it.
type pool[T any] struct {
	name string
	vs   []T
	same func(a, b T) bool
}

func (p *pool[T]) show(i int) string { return fmt.Sprintf("%s #%d", p.name, i) }

// index finds a value in the pool.
func (p *pool[T]) index(v T) int {
	for i := range p.vs {
		if p.same(v, p.vs[i]) {
			return i
		}
	}
	return -1
}

func (p *pool[T]) list(is []int) []T {
	out := make([]T, len(is))
	for i, x := range is {
		out[i] = p.vs[x]
	}
	return out
}

// eq compares what was read with pool indices.
func (p *pool[T]) eq(what string, got []T, exp []int) error {
	if len(got) != len(exp) {
		return errf("%s: %d values, want %d", what, len(got), len(exp))
	}
	for i := range got {
		if !p.same(got[i], p.vs[exp[i]]) {
			return errf("%s: value %d is %v, want %v", what, i, got[i], p.vs[exp[i]])
		}
	}
	return nil
}

func sameSlice(a, b []int) bool {
	return (a == nil) == (b == nil) && len(a) == len(b) && cap(a) == cap(b) && reflect.ValueOf(a).Pointer() == reflect.ValueOf(b).Pointer()
}

func anySame(a, b any) bool {
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if a == nil {
		return true
	}
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	switch x.Kind() {
	case reflect.Slice:
		return x.Pointer() == y.Pointer() && x.Len() == y.Len()
	case reflect.Map, reflect.Func:
		return x.Pointer() == y.Pointer()
	case reflect.Float64:
		return math.Float64bits(a.(float64)) == math.Float64bits(b.(float64))
	}
	return a == b
}

type nocmp struct {
	s []int
	f func()
}

var (
	poolAny  = &pool[any]{"any", []any{nil, []int{1}, 0, math.NaN(), (*int)(nil), map[int]int{}}, anySame}
	poolInts = &pool[[]int]{"[]int", [][]int{nil, {}, {1}}, sameSlice}
	poolFunc = &pool[func()]{"func", []func(){nil, func() {}}, func(a, b func()) bool {
		return reflect.ValueOf(a).Pointer() == reflect.ValueOf(b).Pointer()
	}}
	poolFloat = &pool[float64]{"float64", []float64{0, math.Copysign(0, -1), math.NaN(), 1}, func(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }}
	poolPtr   = &pool[*int]{"*int", []*int{nil, new(int), new(int)}, func(a, b *int) bool { return a == b }}
	poolStr   = &pool[string]{"string", []string{"", "a", "b"}, func(a, b string) bool { return a == b }}
	poolErr   = &pool[error]{"error", []error{nil, errors.New("e"), errors.New("e")}, func(a, b error) bool { return a == b }}
	poolNone  = &pool[struct{}]{"struct{}", []struct{}{{}}, func(a, b struct{}) bool { return true }}
	poolByte  = &pool[byte]{"byte", []byte{0, 1, 255}, func(a, b byte) bool { return a == b }}
	poolStuct = &pool[nocmp]{"struct", []nocmp{{}, {s: []int{1}}, {s: []int{}}}, func(a, b nocmp) bool { return sameSlice(a.s, b.s) }}
)

const (
	tPB = iota
	tPF
	tIns
	tSet
	tFill
	tDel
	tPopF
	tPopB
	tClear
	tKinds
)

var tNames = [...]string{"push back", "push front", "insert in the middle", "set the middle", "fill", "erase the middle", "pop front", "pop back", "clear"}

func tArg(k int) bool { return k <= tFill }

// tseq is a sequence container of T.
type tseq[T any] struct {
	start []int
	ops   []int
	do    func(k, at int, v T) (T, bool)
	all   func() map[string][]T
}

func tapply(m []int, k, v int) (next []int, ret int) {
	m = slices.Clone(m)
	n := len(m)
	switch k {
	case tPB:
		return append(m, v), -1
	case tPF:
		return insertAt(m, 0, v), -1
	case tIns:
		return insertAt(m, n/2, v), -1
	case tSet:
		if n > 0 {
			m[n/2] = v
		}
	case tFill:
		for i := range m {
			m[i] = v
		}
	case tDel:
		if n > 0 {
			return slices.Delete(m, n/2, n/2+1), -1
		}
	case tPopF:
		if n > 0 {
			return m[1:], m[0]
		}
	case tPopB:
		if n > 0 {
			return m[:n-1], m[n-1]
		}
	case tClear:
		return nil, -1
	}
	return m, -1
}

func typedSeq[T any](what string, p *pool[T], c Ctx, l int, mk func(p *pool[T]) *tseq[T]) any {
	ops := mk(p).ops
	type step struct{ k, v int }
	var alpha []step
	for _, k := range ops {
		if !tArg(k) {
			alpha = append(alpha, step{k, -1})
			continue
		}
		for v := range p.vs {
			alpha = append(alpha, step{k, v})
		}
	}
	n := int64(1)
	for i := 0; i < l; i++ {
		n *= int64(len(alpha))
	}
	return &core.Enum{Name: what + " of " + p.name, N: n, Chunk: 256,
		Show: func(i int64) string {
			s := what + " of " + p.name + ":"
			for j := 0; j < l; j++ {
				a := alpha[i%int64(len(alpha))]
				i /= int64(len(alpha))
				s += " " + tNames[a.k]
				if a.v >= 0 {
					s += fmt.Sprintf("(#%d)", a.v)
				}
				s += ";"
			}
			return s
		},
		Run: func(w *core.Worker, i int64) (int64, error) {
			q := mk(p)
			m := q.start
			for j := 0; j < l; j++ {
				a := alpha[i%int64(len(alpha))]
				i /= int64(len(alpha))
				next, ret := tapply(m, a.k, a.v)
				if len(m) == 0 && (a.k == tPopF || a.k == tPopB || a.k == tDel || a.k == tSet) {
					continue
				}
				var v T
				if a.v >= 0 {
					v = p.vs[a.v]
				}
				got, has := q.do(a.k, len(m)/2, v)
				if has && ret >= 0 && !p.same(got, p.vs[ret]) {
					return int64(l), errf("%s returned %v, want %v", tNames[a.k], got, p.vs[ret])
				}
				m = next
				for route, vs := range q.all() {
					if err := p.eq("after "+tNames[a.k]+": "+route, vs, m); err != nil {
						return int64(l), err
					}
				}
			}
			return int64(l), nil
		}}
}

func walkBoth[T any](first, last iterator.ConstBidIterator[T], n int) (f, b []T) {
	it := first
	for i := 0; i < n && it.IsValid(); i++ {
		f = append(f, it.Value())
		it = it.Next().(iterator.ConstBidIterator[T])
	}
	it = last
	for i := 0; i < n && it.IsValid(); i++ {
		b = append(b, it.Value())
		it = it.Prev()
	}
	slices.Reverse(b)
	return
}

func tDeque[T any](p *pool[T]) *tseq[T] {
	d := deque.New[T]()
	return &tseq[T]{ops: []int{tPB, tPF, tIns, tSet, tDel, tPopF, tPopB, tClear},
		do: func(k, at int, v T) (r T, has bool) {
			switch k {
			case tPB:
				d.PushBack(v)
			case tPF:
				d.PushFront(v)
			case tIns:
				d.Insert(at, v)
			case tSet:
				d.Set(at, v)
			case tDel:
				d.EraseAt(at)
			case tPopF:
				return d.PopFront(), true
			case tPopB:
				return d.PopBack(), true
			case tClear:
				d.Clear()
			}
			return
		},
		all: func() map[string][]T {
			n := d.Size()
			_ = d.String()
			var at []T
			for i := 0; i < n; i++ {
				at = append(at, d.At(i))
			}
			f, b := walkBoth[T](d.First(), d.Last(), n+1)
			return map[string][]T{"At": at, "forwards": f, "backwards": b}
		}}
}

func tVector[T any](p *pool[T]) *tseq[T] {
	d := vector.New[T]()
	return &tseq[T]{ops: []int{tPB, tPF, tIns, tSet, tDel, tPopB, tClear},
		do: func(k, at int, v T) (r T, has bool) {
			switch k {
			case tPB:
				d.PushBack(v)
			case tPF:
				d.Insert(d.Begin(), v)
			case tIns:
				d.InsertAt(at, v)
			case tSet:
				d.SetAt(at, v)
			case tDel:
				d.EraseAt(at)
			case tPopB:
				return d.PopBack(), true
			case tClear:
				d.Clear()
			}
			return
		},
		all: func() map[string][]T {
			n := d.Size()
			_ = d.String()
			var at []T
			for i := 0; i < n; i++ {
				at = append(at, d.At(i))
			}
			f, b := walkBoth[T](d.First(), d.Last(), n+1)
			return map[string][]T{"At": at, "forwards": f, "backwards": b, "Data": d.Data(), "a copy": vector.NewFromVector(d).Data()}
		}}
}

func tArray[T any](p *pool[T]) *tseq[T] {
	d := array.New[T](3)
	z := p.index(*new(T))
	return &tseq[T]{start: []int{z, z, z}, ops: []int{tSet, tFill},
		do: func(k, at int, v T) (r T, has bool) {
			switch k {
			case tSet:
				d.Set(at, v)
			case tFill:
				d.Fill(v)
			}
			return
		},
		all: func() map[string][]T {
			n := d.Size()
			_ = d.String()
			var at []T
			for i := 0; i < n; i++ {
				at = append(at, d.At(i))
			}
			f, b := walkBoth[T](d.First(), d.Last(), n+1)
			return map[string][]T{"At": at, "forwards": f, "backwards": b, "Data": d.Data(), "a copy": array.NewFromArray(d).Data()}
		}}
}

func tSlice[T any](p *pool[T]) *tseq[T] {
	s := make([]T, 3)
	d := slice.NewSliceWrapper(s)
	z := p.index(*new(T))
	return &tseq[T]{start: []int{z, z, z}, ops: []int{tSet, tFill},
		do: func(k, at int, v T) (r T, has bool) {
			switch k {
			case tSet:
				d.Set(at, v)
			case tFill: // through the slice and through an iterator
				for i := range s {
					s[i] = v
				}
				d.Begin().SetValue(v)
			}
			return
		},
		all: func() map[string][]T {
			var at []T
			for i := 0; i < d.Len(); i++ {
				at = append(at, d.At(i))
			}
			f, b := walkBoth[T](d.First(), d.Last(), d.Len()+1)
			return map[string][]T{"At": at, "forwards": f, "backwards": b, "the slice": s}
		}}
}

func tBid[T any](p *pool[T]) *tseq[T] {
	d := bidlist.New[T]()
	node := func(at int) *bidlist.Node[T] {
		n := d.FrontNode()
		for ; at > 0; at-- {
			n = n.Next()
		}
		return n
	}
	return &tseq[T]{ops: []int{tPB, tPF, tIns, tSet, tDel, tPopF, tPopB, tClear},
		do: func(k, at int, v T) (r T, has bool) {
			switch k {
			case tPB:
				d.PushBack(v)
			case tPF:
				d.PushFront(v)
			case tIns:
				if d.Len() == 0 {
					d.PushBack(v)
				} else {
					d.InsertBefore(v, node(at))
				}
			case tSet:
				node(at).Value = v
			case tDel:
				d.Remove(node(at))
			case tPopF:
				return d.PopFront(), true
			case tPopB:
				return d.PopBack(), true
			case tClear:
				d.Clear()
			}
			return
		},
		all: func() map[string][]T {
			_ = d.String()
			var f, b, tr []T
			for n := d.FrontNode(); n != nil && len(f) <= d.Len(); n = n.Next() {
				f = append(f, n.Value)
			}
			for n := d.BackNode(); n != nil && len(b) <= d.Len(); n = n.Prev() {
				b = append(b, n.Value)
			}
			slices.Reverse(b)
			d.Traversal(func(v T) bool { tr = append(tr, v); return true })
			c := bidlist.New[T]()
			c.PushBackList(d)
			var cp []T
			c.Traversal(func(v T) bool { cp = append(cp, v); return true })
			return map[string][]T{"forwards": f, "backwards": b, "Traversal": tr, "a copy": cp}
		}}
}

func tSim[T any](p *pool[T]) *tseq[T] {
	d := simplelist.New[T]()
	node := func(at int) (pre, n *simplelist.Node[T]) {
		n = d.FrontNode()
		for ; at > 0; at-- {
			pre, n = n, n.Next()
		}
		return
	}
	return &tseq[T]{ops: []int{tPB, tPF, tIns, tSet, tDel},
		do: func(k, at int, v T) (r T, has bool) {
			switch k {
			case tPB:
				d.PushBack(v)
			case tPF:
				d.PushFront(v)
			case tIns:
				if pre, _ := node(at); pre == nil {
					d.PushFront(v)
				} else {
					d.InsertAfter(v, pre)
				}
			case tSet:
				_, n := node(at)
				n.Value = v
			case tDel:
				d.Remove(node(at))
			}
			return
		},
		all: func() map[string][]T {
			_ = d.String()
			var f, tr []T
			for n := d.FrontNode(); n != nil && len(f) <= d.Len(); n = n.Next() {
				f = append(f, n.Value)
			}
			d.Traversal(func(v T) bool { tr = append(tr, v); return true })
			return map[string][]T{"forwards": f, "Traversal": tr}
		}}
}

func tQueue[T any](kind int) func(p *pool[T]) *tseq[T] {
	return func(p *pool[T]) *tseq[T] {
		var o []queue.Option[T]
		switch kind {
		case 1:
			o = append(o, queue.WithListContainer[T](), queue.WithGoroutineSafe[T]())
		case 2:
			o = append(o, queue.WithContainer[T](container.Container[T](deque.New[T]())))
		}
		d := queue.New[T](o...)
		return &tseq[T]{ops: []int{tPB, tPopF, tClear},
			do: func(k, at int, v T) (r T, has bool) {
				switch k {
				case tPB:
					d.Push(v)
				case tPopF:
					return d.Pop(), true
				case tClear:
					d.Clear()
				}
				return
			},
			all: func() map[string][]T {
				_ = d.String()
				if d.Size() > 0 {
					d.Push(d.Back())
					// turned round once, everything is seen
					var vs []T
					for i := d.Size() - 1; i > 0; i-- {
						vs = append(vs, d.Front())
						d.Push(d.Pop())
					}
					d.Pop()
					return map[string][]T{"Front": vs}
				}
				return map[string][]T{"Front": nil}
			}}
	}
}

func tStack[T any](kind int) func(p *pool[T]) *tseq[T] {
	return func(p *pool[T]) *tseq[T] {
		var o []stack.Option[T]
		switch kind {
		case 1:
			o = append(o, stack.WithListContainer[T](), stack.WithGoroutineSafe[T]())
		case 2:
			o = append(o, stack.WithContainer[T](container.Container[T](deque.New[T]())))
		}
		d := stack.New[T](o...)
		return &tseq[T]{ops: []int{tPB, tPopB, tClear},
			do: func(k, at int, v T) (r T, has bool) {
				switch k {
				case tPB:
					d.Push(v)
				case tPopB:
					return d.Pop(), true
				case tClear:
					d.Clear()
				}
				return
			},
			all: func() map[string][]T {
				_ = d.String()
				var vs []T
				for d.Size() > 0 {
					vs = append(vs, d.Top())
					d.Pop()
				}
				slices.Reverse(vs)
				for _, v := range vs {
					d.Push(v)
				}
				return map[string][]T{"Top": vs}
			}}
	}
}

func tPQ[T any](p *pool[T]) *tseq[T] {
	mk := func() *priorityqueue.PriorityQueue[T] {
		return priorityqueue.New[T](func(a, b T) int { return 0 })
	}
	d := mk()
	return &tseq[T]{ops: []int{tPB, tPopF, tClear},
		do: func(k, at int, v T) (r T, has bool) {
			switch k {
			case tPB:
				d.Push(v)
			case tPopF:
				return d.Pop(), true
			case tClear:
				d.Clear()
			}
			return
		},
		all: func() map[string][]T {
			var vs []T
			for !d.Empty() {
				vs = append(vs, d.Top())
				d.Pop()
			}
			for _, v := range vs {
				d.Push(v)
			}
			return map[string][]T{"Top": vs}
		}}
}

// seqParts are the parts of one sequence container, one for each type.
func typeParts(c Ctx, what string, l int,
	a func(*pool[any]) *tseq[any], b func(*pool[[]int]) *tseq[[]int], d func(*pool[func()]) *tseq[func()], e func(*pool[float64]) *tseq[float64],
	f func(*pool[*int]) *tseq[*int], g func(*pool[string]) *tseq[string], h func(*pool[error]) *tseq[error], i func(*pool[struct{}]) *tseq[struct{}],
	j func(*pool[byte]) *tseq[byte], k func(*pool[nocmp]) *tseq[nocmp]) []any {
	return []any{typedSeq(what, poolAny, c, l, a), typedSeq(what, poolInts, c, l, b), typedSeq(what, poolFunc, c, l, d), typedSeq(what, poolFloat, c, l, e),
		typedSeq(what, poolPtr, c, l, f), typedSeq(what, poolStr, c, l, g), typedSeq(what, poolErr, c, l, h), typedSeq(what, poolNone, c, l, i),
		typedSeq(what, poolByte, c, l, j), typedSeq(what, poolStuct, c, l, k)}
}

// tmap is an associative container from K to V.
type tmap[K, V any] struct {
	multi  bool
	vals   bool // holds values
	set    func(k K, v V)
	del    func(k K) (bool, bool) // whether it was there, whether that is told
	get    func(k K) (V, bool)
	put    func(k K, v V) bool // set the value of the first entry through an iterator or node
	all    func() map[string]func(func(k K, v V))
	sorted bool
	size   func() int
	clear  func()
}

type tent struct{ k, v int }

// typedMap runs all histories of l steps over the keys and values of two pools.
func typedMap[K, V any](what string, kp *pool[K], vp *pool[V], l int, mk func(cmp func(a, b K) int) *tmap[K, V]) any {
	cmp := func(a, b K) int { return 3 * (kp.index(a) - kp.index(b)) }
	probe := mk(cmp)
	nk, nv := min(len(kp.vs), 4), min(len(vp.vs), 4)
	if !probe.vals {
		nv = 1
	}
	type step struct{ what, k, v int }
	var alpha []step
	for k := 0; k < nk; k++ {
		for v := 0; v < nv; v++ {
			alpha = append(alpha, step{0, k, v})
			if probe.put != nil {
				alpha = append(alpha, step{2, k, v})
			}
		}
		alpha = append(alpha, step{1, k, -1})
	}
	if probe.clear != nil {
		alpha = append(alpha, step{3, -1, -1})
	}
	n := int64(1)
	for i := 0; i < l; i++ {
		n *= int64(len(alpha))
	}
	name := fmt.Sprintf("%s from %s to %s", what, kp.name, vp.name)
	if !probe.vals {
		name = fmt.Sprintf("%s of %s", what, kp.name)
	}
	return &core.Enum{Name: name, N: n, Chunk: 256,
		Show: func(i int64) string {
			s := name + ":"
			for j := 0; j < l; j++ {
				a := alpha[i%int64(len(alpha))]
				i /= int64(len(alpha))
				s += fmt.Sprintf(" %s(key #%d, value #%d);", [...]string{"Insert", "Erase", "SetValue", "Clear"}[a.what], a.k, a.v)
			}
			return s
		},
		Run: func(w *core.Worker, i int64) (int64, error) {
			t := mk(cmp)
			var m []tent
			for j := 0; j < l; j++ {
				a := alpha[i%int64(len(alpha))]
				i /= int64(len(alpha))
				at := slices.IndexFunc(m, func(e tent) bool { return e.k == a.k })
				switch a.what {
				case 0:
					t.set(kp.vs[a.k], vp.vs[a.v])
					switch {
					case at < 0 || t.multi:
						x := 0
						for x < len(m) && m[x].k <= a.k {
							x++
						}
						m = insertAt(m, x, tent{a.k, a.v})
					default:
						m[at].v = a.v
					}
				case 1:
					was, told := t.del(kp.vs[a.k])
					if told && was != (at >= 0) {
						return 1, errf("removal of key #%d reported %v", a.k, was)
					}
					m = slices.DeleteFunc(m, func(e tent) bool { return e.k == a.k })
				case 2:
					if ok := t.put(kp.vs[a.k], vp.vs[a.v]); ok != (at >= 0) {
						return 1, errf("finding key #%d: %v", a.k, ok)
					}
					if at >= 0 {
						m[at].v = a.v
					}
				case 3:
					t.clear()
					m = nil
				}
				if g := t.size(); g != len(m) {
					return 1, errf("size %d, want %d", g, len(m))
				}
				for k := 0; k < nk; k++ {
					v, ok := t.get(kp.vs[k])
					at := slices.IndexFunc(m, func(e tent) bool { return e.k == k })
					if ok != (at >= 0) {
						return 1, errf("key #%d (%v): found %v", k, kp.vs[k], ok)
					}
					if ok && t.vals && !vp.same(v, vp.vs[m[at].v]) {
						return 1, errf("key #%d (%v) has value %v, want %v", k, kp.vs[k], v, vp.vs[m[at].v])
					}
				}
				for route, walk := range t.all() {
					var got []tent
					walk(func(k K, v V) {
						e := tent{kp.index(k), 0}
						if t.vals {
							e.v = vp.index(v)
						}
						got = append(got, e)
					})
					exp := m
					if !t.sorted {
						slices.SortStableFunc(got, func(a, b tent) int { return a.k - b.k })
					}
					if !slices.Equal(got, exp) {
						return 1, errf("%s: (key, value) numbers %v, want %v", route, got, exp)
					}
				}
			}
			return int64(l), nil
		}}
}

func kvWalk[K, V any](first func() iterator.ConstKvIterator[K, V], n int) func(func(k K, v V)) {
	return func(f func(k K, v V)) {
		it := first()
		for i := 0; i <= n && it.IsValid(); i++ {
			f(it.Key(), it.Value())
			it = it.Next().(iterator.ConstKvIterator[K, V])
		}
	}
}

func tTree[K, V any](cmp func(a, b K) int) *tmap[K, V] {
	t := rbtree.New[K, V](cmp)
	return &tmap[K, V]{multi: true, vals: true, sorted: true, set: t.Insert, size: t.Size, clear: t.Clear,
		del: func(k K) (bool, bool) {
			was := false
			for n := t.FindNode(k); n != nil; n = t.FindNode(k) {
				t.Delete(n)
				was = true
			}
			return was, true
		},
		get: func(k K) (V, bool) { v, err := t.Find(k); return v, err == nil },
		put: func(k K, v V) bool {
			n := t.FindNode(k)
			if n != nil {
				n.SetValue(v)
			}
			return n != nil
		},
		all: func() map[string]func(func(k K, v V)) {
			return map[string]func(func(k K, v V)){
				"Traversal": func(f func(k K, v V)) { t.Traversal(func(k K, v V) bool { f(k, v); return true }) },
				"iterator":  kvWalk(func() iterator.ConstKvIterator[K, V] { return t.IterFirst() }, t.Size()),
			}
		}}
}

func tMap[K, V any](cmp func(a, b K) int) *tmap[K, V] {
	t := treemap.New[K, V](cmp, treemap.WithGoroutineSafe())
	return &tmap[K, V]{vals: true, sorted: true, set: t.Insert, size: t.Size, clear: t.Clear,
		del: func(k K) (bool, bool) { t.Erase(k); return false, false },
		get: func(k K) (V, bool) {
			v, err := t.Get(k)
			if (err == nil) != t.Contains(k) {
				panic("Get and Contains disagree")
			}
			return v, err == nil
		},
		put: func(k K, v V) bool {
			it := t.Find(k)
			if it.IsValid() {
				it.SetValue(v)
			}
			return it.IsValid()
		},
		all: func() map[string]func(func(k K, v V)) {
			return map[string]func(func(k K, v V)){
				"Traversal": func(f func(k K, v V)) { t.Traversal(func(k K, v V) bool { f(k, v); return true }) },
				"iterator":  kvWalk(func() iterator.ConstKvIterator[K, V] { return t.Begin() }, t.Size()),
			}
		}}
}

func tMulti[K, V any](cmp func(a, b K) int) *tmap[K, V] {
	t := treemap.NewMultiMap[K, V](cmp)
	return &tmap[K, V]{vals: true, multi: true, sorted: true, set: t.Insert, size: t.Size, clear: t.Clear,
		del: func(k K) (bool, bool) { t.Erase(k); return false, false },
		get: func(k K) (V, bool) {
			v, err := t.Get(k)
			if (err == nil) != t.Contains(k) {
				panic("Get and Contains disagree")
			}
			return v, err == nil
		},
		put: func(k K, v V) bool {
			it := t.Find(k)
			if it.IsValid() {
				it.SetValue(v)
			}
			return it.IsValid()
		},
		all: func() map[string]func(func(k K, v V)) {
			return map[string]func(func(k K, v V)){
				"Traversal": func(f func(k K, v V)) { t.Traversal(func(k K, v V) bool { f(k, v); return true }) },
				"iterator":  kvWalk(func() iterator.ConstKvIterator[K, V] { return t.Begin() }, t.Size()),
			}
		}}
}

func tSet1[K any](cmp func(a, b K) int) *tmap[K, struct{}] {
	t := set.New[K](cmp)
	return &tmap[K, struct{}]{sorted: true, set: func(k K, _ struct{}) { t.Insert(k) }, size: t.Size, clear: t.Clear,
		del: func(k K) (bool, bool) { t.Erase(k); return false, false },
		get: func(k K) (struct{}, bool) { return struct{}{}, t.Contains(k) },
		all: func() map[string]func(func(k K, v struct{})) {
			_ = t.String()
			return map[string]func(func(k K, v struct{})){
				"Traversal": func(f func(k K, v struct{})) { t.Traversal(func(k K) bool { f(k, struct{}{}); return true }) },
				"union":     func(f func(k K, v struct{})) { t.Union(t).Traversal(func(k K) bool { f(k, struct{}{}); return true }) },
				"intersection": func(f func(k K, v struct{})) {
					t.Intersect(t).Traversal(func(k K) bool { f(k, struct{}{}); return true })
				},
				"difference": func(f func(k K, v struct{})) {
					t.Diff(set.New[K](cmp)).Traversal(func(k K) bool { f(k, struct{}{}); return true })
				},
			}
		}}
}

func tSet2[K any](cmp func(a, b K) int) *tmap[K, struct{}] {
	t := set.NewMultiSet[K](cmp)
	return &tmap[K, struct{}]{multi: true, sorted: true, set: func(k K, _ struct{}) { t.Insert(k) }, size: t.Size, clear: t.Clear,
		del: func(k K) (bool, bool) { t.EraseAll(k); return false, false },
		get: func(k K) (struct{}, bool) { return struct{}{}, t.Contains(k) && t.Count(k) > 0 },
		all: func() map[string]func(func(k K, v struct{})) {
			_ = t.String()
			return map[string]func(func(k K, v struct{})){
				"Traversal": func(f func(k K, v struct{})) { t.Traversal(func(k K) bool { f(k, struct{}{}); return true }) },
			}
		}}
}

func tSkip[K, V any](cmp func(a, b K) int) *tmap[K, V] {
	t := skiplist.New[K, V](cmp, skiplist.WithMaxLevel(3))
	return &tmap[K, V]{vals: true, sorted: true, set: t.Insert, size: t.Len,
		del: func(k K) (bool, bool) { return t.Remove(k), true },
		get: func(k K) (V, bool) { v, err := t.Get(k); return v, err == nil },
		all: func() map[string]func(func(k K, v V)) {
			return map[string]func(func(k K, v V)){
				"Traversal": func(f func(k K, v V)) { t.Traversal(func(k K, v V) bool { f(k, v); return true }) },
				"Keys": func(f func(k K, v V)) {
					for _, k := range t.Keys() {
						v, _ := t.Get(k)
						f(k, v)
					}
				},
			}
		}}
}

func tTrie[V any](cmp func(a, b string) int) *tmap[string, V] {
	t := hamt.New[V]()
	return &tmap[string, V]{vals: true, set: func(k string, v V) { t.Insert(hamt.Key(k), v) },
		size: func() int { return len(t.Keys()) },
		del:  func(k string) (bool, bool) { return t.Erase(hamt.Key(k)), true },
		get:  func(k string) (V, bool) { v, err := t.Get(hamt.Key(k)); return v, err == nil },
		all: func() map[string]func(func(k string, v V)) {
			return map[string]func(func(k string, v V)){
				"Traversal": func(f func(k string, v V)) { t.Traversal(func(k hamt.Key, v V) bool { f(string(k), v); return true }) },
			}
		}}
}

// typedAlgo runs an algorithm on all sequences of up to l pool values in the middle of a vector.
func typedAlgo[T any](what string, p *pool[T], l int, f func(p *pool[T], v *vector.Vector[T], idx []int, cmp func(a, b T) int) error) any {
	cmp := func(a, b T) int { return 5 * (p.index(a) - p.index(b)) }
	k := int64(len(p.vs))
	var offs []int64 // per length
	n := int64(0)
	for i, x := 0, int64(1); i <= l; i, x = i+1, x*k {
		offs = append(offs, n)
		n += x
	}
	pick := func(i int64) (idx []int) {
		ln := l
		for offs[ln] > i {
			ln--
		}
		i -= offs[ln]
		for j := 0; j < ln; j++ {
			idx = append(idx, int(i%k))
			i /= k
		}
		return
	}
	return &core.Enum{Name: what + " of " + p.name, N: n, Chunk: 256,
		Show: func(i int64) string { return fmt.Sprintf("%s of %s: values number %v", what, p.name, pick(i)) },
		Run: func(w *core.Worker, i int64) (int64, error) {
			idx := pick(i)
			v := vector.New[T]()
			for _, x := range idx {
				v.PushBack(p.vs[x])
			}
			return 1, f(p, v, idx, cmp)
		}}
}

func algoSort[T any](p *pool[T], v *vector.Vector[T], idx []int, cmp func(a, b T) int) error {
	s := slices.Clone(idx)
	slices.Sort(s)
	w := vector.NewFromVector(v)
	asort.Sort[T](v.Begin(), v.End(), cmp)
	asort.Stable[T](w.Begin(), w.End(), cmp)
	return first(p.eq("Sort", v.Data(), s), p.eq("Stable", w.Data(), s))
}

func algoNth[T any](p *pool[T], v *vector.Vector[T], idx []int, cmp func(a, b T) int) error {
	s := slices.Clone(idx)
	slices.Sort(s)
	for n := range s {
		w := vector.NewFromVector(v)
		asort.NthElement[T](w.Begin(), w.End(), n, cmp)
		if !p.same(w.At(n), p.vs[s[n]]) {
			return errf("element %d is %v, want %v", n, w.At(n), p.vs[s[n]])
		}
	}
	return nil
}

func algoSearch[T any](p *pool[T], v *vector.Vector[T], idx []int, cmp func(a, b T) int) error {
	if !slices.IsSorted(idx) {
		return nil
	}
	for x := range p.vs {
		lo, found := slices.BinarySearch(idx, x)
		hi, _ := slices.BinarySearch(idx, x+1)
		if err := first(want("BinarySearch", asort.BinarySearch[T](v.Begin(), v.End(), p.vs[x], cmp), found),
			want("LowerBound", asort.LowerBound[T](v.Begin(), v.End(), p.vs[x], cmp).Position(), lo),
			want("UpperBound", asort.UpperBound[T](v.Begin(), v.End(), p.vs[x], cmp).Position(), hi)); err != nil {
			return err
		}
	}
	return nil
}

func algoPerm[T any](p *pool[T], v *vector.Vector[T], idx []int, cmp func(a, b T) int) error {
	next, more := slices.Clone(idx), false
	for i := len(next) - 2; i >= 0 && !more; i-- {
		if next[i] < next[i+1] {
			j := len(next) - 1
			for next[j] <= next[i] {
				j--
			}
			next[i], next[j] = next[j], next[i]
			slices.Reverse(next[i+1:])
			more = true
		}
	}
	got := asort.NextPermutation[T](v.Begin(), v.End(), cmp)
	if err := want("NextPermutation", got, more); err != nil || !more {
		return err
	}
	return p.eq("NextPermutation", v.Data(), next)
}

func algoRange[T any](p *pool[T], v *vector.Vector[T], idx []int, cmp func(a, b T) int) error {
	pos := func(it iterator.ConstIterator[T]) int { return it.(*vector.VectorIterator[T]).Position() }
	for x := range p.vs {
		n, at := 0, len(idx)
		for i, y := range idx {
			if y == x {
				n++
				at = min(at, i)
			}
		}
		if err := first(want("Count", algorithm.Count[T](v.Begin(), v.End(), p.vs[x], cmp), n),
			want("Find", pos(algorithm.Find[T](v.Begin(), v.End(), p.vs[x], cmp)), at)); err != nil {
			return err
		}
	}
	lo, hi := len(idx), len(idx)
	if len(idx) > 0 {
		lo, hi = slices.Index(idx, slices.Min(idx)), slices.Index(idx, slices.Max(idx))
	}
	if err := first(want("MinElement", pos(algorithm.MinElement[T](v.Begin(), v.End(), cmp)), lo),
		want("MaxElement", pos(algorithm.MaxElement[T](v.Begin(), v.End(), cmp)), hi)); err != nil {
		return err
	}
	algorithm.Reverse[T](v.Begin(), v.End())
	r := slices.Clone(idx)
	slices.Reverse(r)
	if err := p.eq("Reverse", v.Data(), r); err != nil || len(r) < 2 {
		return err
	}
	algorithm.Swap[T](v.First(), v.Last())
	r[0], r[len(r)-1] = r[len(r)-1], r[0]
	return p.eq("Swap", v.Data(), r)
}

func init() {
	seq := func(prop, what string, quick, deep int, parts func(c Ctx, what string, l int) []any) {
		extend(prop, func(c Ctx) []any {
			if c.Variant != "plain" {
				return nil
			}
			return parts(c, what, c.Pick(quick, deep))
		})
	}
	seq("P01", "deques", 3, 4, func(c Ctx, what string, l int) []any {
		return typeParts(c, what, l, tDeque[any], tDeque[[]int], tDeque[func()], tDeque[float64], tDeque[*int], tDeque[string], tDeque[error], tDeque[struct{}], tDeque[byte], tDeque[nocmp])
	})
	seq("P02", "vectors", 3, 4, func(c Ctx, what string, l int) []any {
		return typeParts(c, what, l, tVector[any], tVector[[]int], tVector[func()], tVector[float64], tVector[*int], tVector[string], tVector[error], tVector[struct{}], tVector[byte], tVector[nocmp])
	})
	seq("P03", "arrays", 3, 5, func(c Ctx, what string, l int) []any {
		return typeParts(c, what, l, tArray[any], tArray[[]int], tArray[func()], tArray[float64], tArray[*int], tArray[string], tArray[error], tArray[struct{}], tArray[byte], tArray[nocmp])
	})
	seq("P03", "wrapped slices", 3, 5, func(c Ctx, what string, l int) []any {
		return typeParts(c, what, l, tSlice[any], tSlice[[]int], tSlice[func()], tSlice[float64], tSlice[*int], tSlice[string], tSlice[error], tSlice[struct{}], tSlice[byte], tSlice[nocmp])
	})
	seq("P04", "lists", 3, 4, func(c Ctx, what string, l int) []any {
		return typeParts(c, what, l, tBid[any], tBid[[]int], tBid[func()], tBid[float64], tBid[*int], tBid[string], tBid[error], tBid[struct{}], tBid[byte], tBid[nocmp])
	})
	seq("P05", "lists", 3, 4, func(c Ctx, what string, l int) []any {
		return typeParts(c, what, l, tSim[any], tSim[[]int], tSim[func()], tSim[float64], tSim[*int], tSim[string], tSim[error], tSim[struct{}], tSim[byte], tSim[nocmp])
	})
	for kind := 0; kind < 3; kind++ {
		on := [...]string{"", " on lists", " on given deques"}[kind]
		seq("P06", "queues"+on, 4, 6, func(c Ctx, what string, l int) []any {
			return typeParts(c, what, l, tQueue[any](kind), tQueue[[]int](kind), tQueue[func()](kind), tQueue[float64](kind), tQueue[*int](kind), tQueue[string](kind), tQueue[error](kind), tQueue[struct{}](kind), tQueue[byte](kind), tQueue[nocmp](kind))
		})
		seq("P06", "stacks"+on, 4, 6, func(c Ctx, what string, l int) []any {
			return typeParts(c, what, l, tStack[any](kind), tStack[[]int](kind), tStack[func()](kind), tStack[float64](kind), tStack[*int](kind), tStack[string](kind), tStack[error](kind), tStack[struct{}](kind), tStack[byte](kind), tStack[nocmp](kind))
		})
	}
	seq("P07", "priority queues", 4, 6, func(c Ctx, what string, l int) []any {
		return typeParts(c, what, l, tPQ[any], tPQ[[]int], tPQ[func()], tPQ[float64], tPQ[*int], tPQ[string], tPQ[error], tPQ[struct{}], tPQ[byte], tPQ[nocmp])
	})
	seq("P09", "trees", 3, 4, func(c Ctx, what string, l int) []any {
		return []any{typedMap(what, poolStr, poolAny, l, tTree[string, any]), typedMap(what, poolStr, poolInts, l, tTree[string, []int]), typedMap(what, poolByte, poolFunc, l, tTree[byte, func()]),
			typedMap(what, poolAny, poolPtr, l, tTree[any, *int]), typedMap(what, poolInts, poolFloat, l, tTree[[]int, float64]), typedMap(what, poolFunc, poolNone, l, tTree[func(), struct{}]),
			typedMap(what, poolPtr, poolErr, l, tTree[*int, error]), typedMap(what, poolStuct, poolStuct, l, tTree[nocmp, nocmp])}
	})
	seq("P12", "maps", 3, 4, func(c Ctx, what string, l int) []any {
		return []any{typedMap(what, poolStr, poolAny, l, tMap[string, any]), typedMap(what, poolStr, poolInts, l, tMap[string, []int]), typedMap(what, poolByte, poolFunc, l, tMap[byte, func()]),
			typedMap(what, poolAny, poolPtr, l, tMap[any, *int]), typedMap(what, poolInts, poolFloat, l, tMap[[]int, float64]), typedMap(what, poolFunc, poolNone, l, tMap[func(), struct{}]),
			typedMap(what, poolPtr, poolErr, l, tMap[*int, error]), typedMap(what, poolStuct, poolStuct, l, tMap[nocmp, nocmp])}
	})
	seq("P13", "multimaps", 3, 4, func(c Ctx, what string, l int) []any {
		return []any{typedMap(what, poolStr, poolAny, l, tMulti[string, any]), typedMap(what, poolStr, poolInts, l, tMulti[string, []int]), typedMap(what, poolByte, poolFunc, l, tMulti[byte, func()]),
			typedMap(what, poolAny, poolPtr, l, tMulti[any, *int]), typedMap(what, poolInts, poolFloat, l, tMulti[[]int, float64]), typedMap(what, poolFunc, poolNone, l, tMulti[func(), struct{}]),
			typedMap(what, poolPtr, poolErr, l, tMulti[*int, error]), typedMap(what, poolStuct, poolStuct, l, tMulti[nocmp, nocmp])}
	})
	seq("P14", "sets", 4, 5, func(c Ctx, what string, l int) []any {
		return []any{typedMap(what, poolAny, poolNone, l, tSet1[any]), typedMap(what, poolInts, poolNone, l, tSet1[[]int]), typedMap(what, poolFunc, poolNone, l, tSet1[func()]), typedMap(what, poolFloat, poolNone, l, tSet1[float64]),
			typedMap(what, poolPtr, poolNone, l, tSet1[*int]), typedMap(what, poolStr, poolNone, l, tSet1[string]), typedMap(what, poolErr, poolNone, l, tSet1[error]), typedMap(what, poolStuct, poolNone, l, tSet1[nocmp])}
	})
	seq("P14", "multisets", 4, 5, func(c Ctx, what string, l int) []any {
		return []any{typedMap(what, poolAny, poolNone, l, tSet2[any]), typedMap(what, poolInts, poolNone, l, tSet2[[]int]), typedMap(what, poolFunc, poolNone, l, tSet2[func()]), typedMap(what, poolFloat, poolNone, l, tSet2[float64]),
			typedMap(what, poolPtr, poolNone, l, tSet2[*int]), typedMap(what, poolStr, poolNone, l, tSet2[string]), typedMap(what, poolErr, poolNone, l, tSet2[error]), typedMap(what, poolStuct, poolNone, l, tSet2[nocmp])}
	})
	seq("P16", "skip lists", 3, 4, func(c Ctx, what string, l int) []any {
		return []any{typedMap(what, poolStr, poolAny, l, tSkip[string, any]), typedMap(what, poolStr, poolInts, l, tSkip[string, []int]), typedMap(what, poolByte, poolFunc, l, tSkip[byte, func()]),
			typedMap(what, poolAny, poolPtr, l, tSkip[any, *int]), typedMap(what, poolInts, poolFloat, l, tSkip[[]int, float64]), typedMap(what, poolFunc, poolNone, l, tSkip[func(), struct{}]),
			typedMap(what, poolPtr, poolErr, l, tSkip[*int, error]), typedMap(what, poolStuct, poolStuct, l, tSkip[nocmp, nocmp])}
	})
	seq("P17", "tries", 3, 4, func(c Ctx, what string, l int) []any {
		return []any{typedMap(what, poolStr, poolAny, l, tTrie[any]), typedMap(what, poolStr, poolInts, l, tTrie[[]int]), typedMap(what, poolStr, poolFunc, l, tTrie[func()]), typedMap(what, poolStr, poolFloat, l, tTrie[float64]),
			typedMap(what, poolStr, poolPtr, l, tTrie[*int]), typedMap(what, poolStr, poolErr, l, tTrie[error]), typedMap(what, poolStr, poolNone, l, tTrie[struct{}]), typedMap(what, poolStr, poolStuct, l, tTrie[nocmp])}
	})
	algo := func(prop, what string, a func(*pool[any], *vector.Vector[any], []int, func(a, b any) int) error, b func(*pool[[]int], *vector.Vector[[]int], []int, func(a, b []int) int) error,
		d func(*pool[func()], *vector.Vector[func()], []int, func(a, b func()) int) error, e func(*pool[float64], *vector.Vector[float64], []int, func(a, b float64) int) error, g func(*pool[nocmp], *vector.Vector[nocmp], []int, func(a, b nocmp) int) error) {
		extend(prop, func(c Ctx) []any {
			if c.Variant != "plain" {
				return nil
			}
			return []any{typedAlgo(what, poolAny, c.Pick(4, 5), a), typedAlgo(what, poolInts, c.Pick(5, 7), b), typedAlgo(what, poolFunc, c.Pick(6, 9), d), typedAlgo(what, poolFloat, c.Pick(5, 6), e), typedAlgo(what, poolStuct, c.Pick(5, 7), g)}
		})
	}
	algo("P24", "sorting", algoSort[any], algoSort[[]int], algoSort[func()], algoSort[float64], algoSort[nocmp])
	algo("P25", "selection", algoNth[any], algoNth[[]int], algoNth[func()], algoNth[float64], algoNth[nocmp])
	algo("P26", "searching", algoSearch[any], algoSearch[[]int], algoSearch[func()], algoSearch[float64], algoSearch[nocmp])
	algo("P27", "permuting", algoPerm[any], algoPerm[[]int], algoPerm[func()], algoPerm[float64], algoPerm[nocmp])
	algo("P28", "range algorithms", algoRange[any], algoRange[[]int], algoRange[func()], algoRange[float64], algoRange[nocmp])
}
