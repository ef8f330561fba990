package props

import (
	"fmt"
	"slices"

	"github.com/liyue201/gostl/ds/array"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/vector"
	"github.com/liyue201/gostl/utils/iterator"
	"verifmc/core"
	"verifmc/snap"
)

type holdIt = iterator.RandomAccessIterator[Val]

// holdM is a container that changes while iterators on it are held. An iterator has to go on designating
// its element as long as nothing at or before its position is inserted or removed.
type holdM struct {
	kind  int
	d     *deque.Deque[Val]
	v     *vector.Vector[Val]
	a     *array.Array[Val]
	other *array.Array[Val] // swapped with a
	om    []Val
	m     []Val
	next  Val
	it    []holdIt
	pos   []int
	limit int
	few   bool
}

const (
	hHold = iota + 1
	hNext
	hPrev
	hSetVal
	hPushBack
	hPopBack
	hInsert
	hErase
	hEraseRange
	hSet
	hClear
	hReserve
	hShrink
	hPushFront
	hPopFront
	hFill
	hSwap
	hObs
)

const (
	hkDeque = iota
	hkVector
	hkArray
)

func newHold(kind, front, back, cut, limit int) *holdM {
	s := &holdM{kind: kind, next: 1, it: make([]holdIt, 2), pos: []int{-1, -1}, limit: limit}
	switch kind {
	case hkDeque:
		s.d = deque.New[Val]()
	case hkVector:
		s.v = vector.New[Val]()
	case hkArray:
		s.a, s.other = array.New[Val](back), array.New[Val](back)
		s.m = make([]Val, back)
		for i := range back {
			s.om = append(s.om, s.val())
			s.other.Set(i, s.om[i])
		}
		return s
	}
	for range front {
		s.Do(op(hPushFront, 0, 0))
	}
	for range back {
		s.Do(op(hPushBack, 0, 0))
	}
	for range cut {
		s.Do(op(hPopFront, 0, 0))
	}
	s.few = len(s.m) > 12
	return s
}

func (s *holdM) val() Val { s.next++; return s.next - 1 }

func (s *holdM) iter(i int) holdIt {
	switch s.kind {
	case hkDeque:
		return s.d.IterAt(i)
	case hkVector:
		return s.v.IterAt(i)
	}
	return s.a.Begin().IteratorAt(i)
}

func (s *holdM) Ops(o []uint32) []uint32 {
	n := len(s.m)
	pos := near(n)
	if s.few && n > 12 {
		pos = []int{0, n / 2, n - 1, n}
	}
	for k := range s.it {
		for _, i := range pos {
			if i < n && (k == 0 || s.pos[0] >= 0) {
				o = append(o, op(hHold, k, i))
			}
		}
		if s.pos[k] >= 0 {
			o = append(o, op(hSetVal, k, 0))
			if s.pos[k]+1 < n {
				o = append(o, op(hNext, k, 0))
			}
			if s.pos[k] > 0 {
				o = append(o, op(hPrev, k, 0))
			}
		}
	}
	if s.kind == hkArray {
		for i := range n {
			o = append(o, op(hSet, i, 0))
		}
		return append(o, op(hFill, 0, 0), op(hSwap, 0, 0), op(hObs, 0, 0))
	}
	for _, i := range pos {
		if i <= n && n < s.limit {
			o = append(o, op(hInsert, i, 0))
		}
		if i < n {
			o = append(o, op(hErase, i, 0), op(hSet, i, 0))
			for _, j := range pos {
				if j > i {
					o = append(o, op(hEraseRange, i, j))
				}
			}
		}
	}
	if n < s.limit {
		o = append(o, op(hPushBack, 0, 0))
		if s.kind == hkDeque {
			o = append(o, op(hPushFront, 0, 0))
		}
	}
	if n > 0 {
		o = append(o, op(hPopBack, 0, 0))
		if s.kind == hkDeque {
			o = append(o, op(hPopFront, 0, 0))
		}
	}
	if s.kind == hkVector {
		o = append(o, op(hReserve, 0, 0), op(hShrink, 0, 0))
	}
	return append(o, op(hClear, 0, 0), op(hObs, 0, 0))
}

func (s *holdM) Name(o uint32) string {
	k, a, b := unop(o)
	c := [...]string{"deque", "vector", "array"}[s.kind]
	switch k {
	case hObs:
		return "observe"
	case hHold:
		return fmt.Sprintf("iterator %d = %s position %d", a, c, b)
	case hNext, hPrev, hSetVal:
		return fmt.Sprintf("iterator %d: %s", a, [...]string{hNext: "Next", hPrev: "Prev", hSetVal: "SetValue"}[k])
	}
	return fmt.Sprintf("%s: %s(%d,%d)", c, [...]string{hPushBack: "PushBack", hPopBack: "PopBack", hInsert: "Insert", hErase: "Erase", hEraseRange: "EraseRange", hSet: "Set",
		hClear: "Clear", hReserve: "Reserve", hShrink: "ShrinkToFit", hPushFront: "PushFront", hPopFront: "PopFront", hFill: "Fill", hSwap: "SwapArray"}[k], a, b)
}

func (s *holdM) Do(o uint32) error {
	k, a, b := unop(o)
	n := len(s.m)
	change := n // lowest position at which elements came, went or moved
	switch k {
	case hObs: // looking through the iterators may change what they remember, so it is an operation of its own
		return s.Check()
	case hHold:
		s.it[a], s.pos[a] = s.iter(b), b
	case hNext:
		s.it[a].Next()
		s.pos[a]++
	case hPrev:
		s.it[a].Prev()
		s.pos[a]--
	case hSetVal:
		v := s.val()
		s.m[s.pos[a]] = v
		s.it[a].SetValue(v)
	case hPushBack:
		v := s.val()
		s.m = append(s.m, v)
		if s.d != nil {
			s.d.PushBack(v)
		} else {
			s.v.PushBack(v)
		}
	case hPopBack:
		change = n - 1
		s.m = s.m[:n-1]
		if s.d != nil {
			s.d.PopBack()
		} else {
			s.v.PopBack()
		}
	case hInsert:
		v := s.val()
		change = a
		s.m = insertAt(s.m, a, v)
		if s.d != nil {
			s.d.Insert(a, v)
		} else {
			s.v.InsertAt(a, v)
		}
	case hErase:
		change = a
		s.m = eraseAt(s.m, a, a+1)
		if s.d != nil {
			s.d.EraseAt(a)
		} else {
			s.v.EraseAt(a)
		}
	case hEraseRange:
		change = a
		s.m = eraseAt(s.m, a, b)
		if s.d != nil {
			s.d.EraseRange(a, b)
		} else {
			s.v.EraseIndexRange(a, b)
		}
	case hSet:
		v := s.val()
		s.m[a] = v
		switch {
		case s.d != nil:
			s.d.Set(a, v)
		case s.v != nil:
			s.v.SetAt(a, v)
		default:
			s.a.Set(a, v)
		}
	case hClear:
		change = 0
		s.m = s.m[:0]
		if s.d != nil {
			s.d.Clear()
		} else {
			s.v.Clear()
		}
	case hReserve:
		s.v.Reserve(2*s.v.Capacity()%16 + 1)
	case hShrink:
		s.v.ShrinkToFit()
	case hPushFront:
		v := s.val()
		change = 0
		s.m = insertAt(s.m, 0, v)
		s.d.PushFront(v)
	case hPopFront:
		change = 0
		s.m = eraseAt(s.m, 0, 1)
		s.d.PopFront()
	case hFill:
		v := s.val()
		for i := range s.m {
			s.m[i] = v
		}
		s.a.Fill(v)
	case hSwap:
		s.m, s.om = s.om, s.m
		s.a.SwapArray(s.other)
	}
	for k := range s.it {
		if s.pos[k] >= change {
			s.it[k], s.pos[k] = nil, -1
		}
	}
	return nil
}

func (s *holdM) Check() error {
	n := len(s.m)
	for k, it := range s.it {
		p := s.pos[k]
		if p < 0 {
			continue
		}
		if !it.IsValid() {
			return errf("iterator %d, held at position %d of now %d elements, is not valid", k, p, n)
		}
		if err := first(want(fmt.Sprintf("iterator %d, held at position %d of now %d elements: Value()", k, p, n), it.Value(), s.m[p]),
			want(fmt.Sprintf("iterator %d: Position()", k), it.Position(), p)); err != nil {
			return err
		}
		for _, q := range []int{0, n / 2, n - 1} {
			x := s.iter(q)
			if it.Equal(x) != (p == q) || x.Equal(it) != (p == q) {
				return errf("iterator %d, held at position %d, equals a new one at %d: %v", k, p, q, it.Equal(x))
			}
			if y := it.IteratorAt(q); !y.IsValid() || y.Value() != s.m[q] || !y.Equal(x) {
				return errf("iterator %d, held at position %d: IteratorAt(%d) does not designate that element", k, p, q)
			}
		}
		// walk on to both ends
		if n > 12 {
			continue
		}
		i := p
		for x := it.Clone().(holdIt); x.IsValid(); x.Next() {
			if i >= n || x.Value() != s.m[i] {
				return errf("iterator %d, held at position %d: going on forwards goes wrong at %d of %d", k, p, i, n)
			}
			i++
		}
		if i != n {
			return errf("iterator %d, held at position %d: going on forwards ends at %d of %d", k, p, i, n)
		}
		i = p
		for x := it.Clone().(holdIt); x.IsValid(); x.Prev() {
			if i < 0 || x.Value() != s.m[i] {
				return errf("iterator %d, held at position %d: going on backwards goes wrong at %d", k, p, i)
			}
			i--
		}
		if i != -1 {
			return errf("iterator %d, held at position %d: going on backwards ends at %d", k, p, i)
		}
	}
	var got []Val
	for i := range n {
		switch s.kind {
		case hkDeque:
			got = append(got, s.d.At(i))
		case hkVector:
			got = append(got, s.v.At(i))
		case hkArray:
			got = append(got, s.a.At(i))
		}
	}
	if !slices.Equal(got, s.m) {
		return errf("the contents are %v, want %v", seqString(got), seqString(s.m))
	}
	return nil
}

func (s *holdM) State(h *snap.Hasher) {
	h.Int(s.pos[0])
	h.Int(s.pos[1])
	h.Int(len(s.m))
	h.Vals(s.m)
	h.Vals(s.om)
	switch s.kind {
	case hkDeque:
		h.Graph(s.d)
	case hkVector:
		h.Graph(s.v)
	case hkArray:
		h.Graph(s.a)
		h.Graph(s.other)
	}
	for k := range s.it {
		if s.it[k] != nil {
			h.Graph(s.it[k])
		}
	}
}

// holdParts explores iterators held while their container changes.
func holdParts(c Ctx) []any {
	var parts []any
	add := func(name string, kind int, roots [][3]int, limit, depth, states int) {
		parts = append(parts, &core.Spec{Name: name, Roots: len(roots), Depth: depth, Max: states,
			Root: func(r int) core.Machine { return newHold(kind, roots[r][0], roots[r][1], roots[r][2], limit) }})
	}
	if c.Variant == "plain" {
		add("iterators held while an array changes", hkArray, [][3]int{{0, 1, 0}, {0, 2, 0}, {0, 3, 0}}, 0, c.Pick(5, 9), c.Pick(60000, 1000000))
		add("iterators held while a vector changes", hkVector, [][3]int{{0, 0, 0}}, c.Pick(5, 6), c.Pick(10, 14), c.Pick(100000, 2000000))
		add("iterators held while a deque changes", hkDeque, [][3]int{{0, 0, 0}, {3, 0, 0}, {0, 3, 0}}, c.Pick(5, 6), c.Pick(8, 11), c.Pick(250000, 6000000))
		parts = append(parts, holdListParts(c)...)
		add("iterators held while a deque changes around its segment borders", hkDeque, [][3]int{{0, 127, 0}, {0, 128, 0}, {0, 129, 0}, {127, 2, 0}, {128, 128, 0}, {3, 130, 6}, {0, 257, 1}, {129, 255, 2}}, 400, c.Pick(4, 4), c.Pick(100000, 1000000))
	} else {
		add("iterators held while a deque changes", hkDeque, [][3]int{{0, 0, 0}, {3, 0, 0}, {0, 5, 0}, {4, 4, 0}, {0, 8, 5}, {2, 10, 1}}, c.Pick(12, 16), c.Pick(4, 5), c.Pick(6000000, 12000000))
		add("iterators held while a small deque changes", hkDeque, [][3]int{{0, 0, 0}, {2, 2, 0}}, c.Pick(6, 8), c.Pick(7, 8), c.Pick(6000000, 12000000))
	}
	return parts
}
