package props

import (
	"fmt"

	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	"github.com/liyue201/gostl/utils/iterator"
	"verifmc/core"
	"verifmc/snap"
)

// holdListM is a list that changes while iterators on it are held. As in holdM an iterator is followed as long as only
// elements behind it come, go or are replaced.
type holdListM struct {
	b     *bidlist.List[Val]
	s     *simplelist.List[Val]
	m     []Val
	next  Val
	it    []iterator.ConstIterator[Val]
	pos   []int
	limit int
}

const (
	lhHold = iota + 1
	lhNext
	lhPrev
	lhSetVal
	lhPushFront
	lhPushBack
	lhInsert // after
	lhRemove
	lhToFront
	lhToBack
	lhSet // through another iterator
	lhPopBack
	lhClear
	lhObs
)

func newHoldList(bid bool, n, limit int) *holdListM {
	s := &holdListM{next: 1, it: make([]iterator.ConstIterator[Val], 2), pos: []int{-1, -1}, limit: limit}
	if bid {
		s.b = bidlist.New[Val]()
	} else {
		s.s = simplelist.New[Val]()
	}
	for range n {
		s.Do(op(lhPushBack, 0, 0))
	}
	return s
}

func (s *holdListM) val() Val { s.next++; return s.next - 1 }

func (s *holdListM) iter(i int) iterator.ConstIterator[Val] {
	if s.b != nil {
		return bidlist.NewIterator(s.bn(i))
	}
	return simplelist.NewIterator(s.sn(i))
}

func (s *holdListM) bn(i int) *bidlist.Node[Val] {
	n := s.b.FrontNode()
	for ; i > 0; i-- {
		n = n.Next()
	}
	return n
}

func (s *holdListM) sn(i int) *simplelist.Node[Val] {
	if i < 0 {
		return nil
	}
	n := s.s.FrontNode()
	for ; i > 0; i-- {
		n = n.Next()
	}
	return n
}

func (s *holdListM) Ops(o []uint32) []uint32 {
	n := len(s.m)
	for k := range s.it {
		for i := range n {
			if k == 0 || s.pos[0] >= 0 {
				o = append(o, op(lhHold, k, i))
			}
		}
		if s.pos[k] >= 0 {
			o = append(o, op(lhSetVal, k, 0))
			if s.pos[k]+1 < n {
				o = append(o, op(lhNext, k, 0))
			}
			if s.pos[k] > 0 && s.b != nil {
				o = append(o, op(lhPrev, k, 0))
			}
		}
	}
	for i := range n {
		o = append(o, op(lhRemove, i, 0), op(lhToFront, i, 0), op(lhToBack, i, 0), op(lhSet, i, 0))
		if n < s.limit {
			o = append(o, op(lhInsert, i, 0))
		}
	}
	if n < s.limit {
		o = append(o, op(lhPushFront, 0, 0), op(lhPushBack, 0, 0))
	}
	if s.b != nil {
		if n > 0 {
			o = append(o, op(lhPopBack, 0, 0))
		}
		o = append(o, op(lhClear, 0, 0))
	}
	return append(o, op(lhObs, 0, 0))
}

func (s *holdListM) Name(o uint32) string {
	k, a, b := unop(o)
	c := "bidirectional list"
	if s.s != nil {
		c = "simple list"
	}
	switch k {
	case lhObs:
		return "observe"
	case lhHold:
		return fmt.Sprintf("iterator %d = %s position %d", a, c, b)
	case lhNext, lhPrev, lhSetVal:
		return fmt.Sprintf("iterator %d: %s", a, [...]string{lhNext: "Next", lhPrev: "Prev", lhSetVal: "SetValue"}[k])
	}
	return fmt.Sprintf("%s: %s(%d)", c, [...]string{lhPushFront: "PushFront", lhPushBack: "PushBack", lhInsert: "InsertAfter", lhRemove: "Remove", lhToFront: "MoveToFront",
		lhToBack: "MoveToBack", lhSet: "iterator at: SetValue", lhPopBack: "PopBack", lhClear: "Clear"}[k], a)
}

func (s *holdListM) Do(o uint32) error {
	k, a, b := unop(o)
	n := len(s.m)
	change := n // lowest position at which elements came, went or moved
	switch k {
	case lhObs:
		return s.Check()
	case lhHold:
		s.it[a], s.pos[a] = s.iter(b), b
	case lhNext:
		s.it[a].Next()
		s.pos[a]++
	case lhPrev:
		s.it[a].(iterator.ConstBidIterator[Val]).Prev()
		s.pos[a]--
	case lhSetVal:
		v := s.val()
		s.m[s.pos[a]] = v
		s.it[a].(iterator.Iterator[Val]).SetValue(v)
	case lhSet:
		v := s.val()
		s.m[a] = v
		s.iter(a).(iterator.Iterator[Val]).SetValue(v)
	case lhPushFront:
		change = 0
		v := s.val()
		s.m = insertAt(s.m, 0, v)
		if s.b != nil {
			s.b.PushFront(v)
		} else {
			s.s.PushFront(v)
		}
	case lhPushBack:
		v := s.val()
		s.m = append(s.m, v)
		if s.b != nil {
			s.b.PushBack(v)
		} else {
			s.s.PushBack(v)
		}
	case lhInsert:
		change = a + 1
		v := s.val()
		s.m = insertAt(s.m, a+1, v)
		if s.b != nil {
			s.b.InsertAfter(v, s.bn(a))
		} else {
			s.s.InsertAfter(v, s.sn(a))
		}
	case lhRemove, lhToFront, lhToBack:
		change = a
		v := s.m[a]
		s.m = eraseAt(s.m, a, a+1)
		switch k {
		case lhToFront:
			if change = 0; a == 0 {
				change = n
			}
			s.m = insertAt(s.m, 0, v)
		case lhToBack:
			if a == n-1 {
				change = n
			}
			s.m = append(s.m, v)
		}
		if s.b != nil {
			f := map[int]func(*bidlist.Node[Val]){lhRemove: func(x *bidlist.Node[Val]) { s.b.Remove(x) }, lhToFront: s.b.MoveToFront, lhToBack: s.b.MoveToBack}[k]
			f(s.bn(a))
		} else {
			f := map[int]func(p, x *simplelist.Node[Val]){lhRemove: func(p, x *simplelist.Node[Val]) { s.s.Remove(p, x) }, lhToFront: s.s.MoveToFront, lhToBack: s.s.MoveToBack}[k]
			f(s.sn(a-1), s.sn(a))
		}
	case lhPopBack:
		change = n - 1
		s.m = s.m[:n-1]
		s.b.PopBack()
	case lhClear:
		change = 0
		s.m = s.m[:0]
		s.b.Clear()
	}
	for k := range s.it {
		if s.pos[k] >= change {
			s.it[k], s.pos[k] = nil, -1
		}
	}
	return nil
}

func (s *holdListM) Check() error {
	n := len(s.m)
	for k, it := range s.it {
		p := s.pos[k]
		if p < 0 {
			continue
		}
		if !it.IsValid() {
			return errf("iterator %d, held at position %d of now %d elements, is not valid", k, p, n)
		}
		if err := want(fmt.Sprintf("iterator %d, held at position %d of now %d elements: Value()", k, p, n), it.Value(), s.m[p]); err != nil {
			return err
		}
		for q := range n {
			x := s.iter(q)
			if it.Equal(x) != (p == q) || x.Equal(it) != (p == q) {
				return errf("iterator %d, held at position %d, equals a new one at %d: %v", k, p, q, it.Equal(x))
			}
		}
		i := p
		for x := it.Clone(); x.IsValid(); x.Next() {
			if i >= n || x.Value() != s.m[i] {
				return errf("iterator %d, held at position %d: going on forwards goes wrong at %d of %d", k, p, i, n)
			}
			i++
		}
		if i != n {
			return errf("iterator %d, held at position %d: going on forwards ends at %d of %d", k, p, i, n)
		}
		if s.b == nil {
			continue
		}
		i = p
		for x := it.Clone().(iterator.ConstBidIterator[Val]); x.IsValid(); x.Prev() {
			if i < 0 || x.Value() != s.m[i] {
				return errf("iterator %d, held at position %d: going on backwards goes wrong at %d", k, p, i)
			}
			i--
		}
		if i != -1 {
			return errf("iterator %d, held at position %d: going on backwards ends at %d", k, p, i)
		}
	}
	i := 0
	if n > 0 {
		for x := s.iter(0); x.IsValid(); x.Next() {
			if i >= n || x.Value() != s.m[i] {
				return errf("a new iterator goes wrong at %d of %d", i, n)
			}
			i++
		}
	}
	if i != n {
		return errf("a new iterator ends at %d of %d", i, n)
	}
	return nil
}

func (s *holdListM) State(h *snap.Hasher) {
	h.Int(s.pos[0])
	h.Int(s.pos[1])
	h.Int(len(s.m))
	h.Vals(s.m)
	if s.b != nil {
		h.Graph(s.b)
	} else {
		h.Graph(s.s)
	}
	for k := range s.it {
		if s.it[k] != nil {
			h.Graph(s.it[k])
		}
	}
}

func holdListParts(c Ctx) []any {
	var parts []any
	for _, bid := range []bool{true, false} {
		name := "iterators held while a simple list changes"
		if bid {
			name = "iterators held while a bidirectional list changes"
		}
		parts = append(parts, &core.Spec{Name: name, Roots: 3, Depth: c.Pick(12, 20), Max: c.Pick(150000, 2000000),
			Root: func(r int) core.Machine { return newHoldList(bid, 2*r, c.Pick(5, 6)) }})
	}
	return parts
}
