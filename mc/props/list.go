package props

import (
	"fmt"

	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	"verifmc/core"
	"verifmc/snap"
)

const (
	lPF = iota + 1
	lPB
	lPopF
	lPopB
	lInsAfter
	lInsBefore
	lRemove
	lMoveFront
	lMoveBack
	lMoveAfter
	lPBList
	lPFList
	lClear
	lObs
	lSetVal
	lWrongFront
	lListB = 0x40 // the operation is called on the second list
)

type bnode struct {
	v Val
	n *bidlist.Node[Val]
}

// bidM is two bidirectional lists and the nodes last removed from them.
type bidM struct {
	l      [2]*bidlist.List[Val]
	m      [2][]bnode
	gone   []bnode
	next   Val
	limit  [2]int
	pos    func(n int) []int
	nocopy bool
	solo   bool // operations on and with nodes of the first list only
}

func newBid(la, lb int) *bidM {
	return &bidM{l: [2]*bidlist.List[Val]{bidlist.New[Val](), bidlist.New[Val]()}, limit: [2]int{la, lb}, next: 1}
}

func (s *bidM) Len() int { return len(s.m[0]) }
func (s *bidM) val() Val { s.next++; return s.next - 1 }

// node codes: list*1024 + index for the two lists, 2048+index for removed nodes
func (s *bidM) node(c int) bnode {
	if c >= 2048 {
		return s.gone[c-2048]
	}
	return s.m[c>>10][c&1023]
}

func (s *bidM) at(l int) []int {
	n := len(s.m[l])
	if s.pos != nil {
		return s.pos(n)
	}
	var p []int
	for i := 0; i < n; i++ {
		p = append(p, i)
	}
	return p
}

func (s *bidM) codes() []int {
	var cs []int
	for l := 0; l < 2; l++ {
		if l == 1 && s.solo {
			break
		}
		for _, i := range s.at(l) {
			cs = append(cs, l<<10+i)
		}
	}
	if !s.solo {
		for i := range s.gone {
			cs = append(cs, 2048+i)
		}
	}
	return cs
}

// operations with node codes need 12 bits each and sx must not touch them
func lop(kind, l, a, b int) uint32 { return uint32(kind|l*lListB)<<24 | uint32(a)<<12 | uint32(b) }

func (s *bidM) Ops(o []uint32) []uint32 {
	cs := s.codes()
	for l := 0; l < 2; l++ {
		if l == 1 && s.solo {
			break
		}
		n := len(s.m[l])
		room := n < s.limit[l]
		if room {
			o = append(o, lop(lPF, l, 0, 0), lop(lPB, l, 0, 0))
		}
		o = append(o, lop(lPopF, l, 0, 0), lop(lPopB, l, 0, 0), lop(lClear, l, 0, 0))
		for _, c := range cs {
			own := c>>10 == l
			if room || !own {
				o = append(o, lop(lInsAfter, l, c, 0), lop(lInsBefore, l, c, 0))
			}
			o = append(o, lop(lRemove, l, c, 0), lop(lMoveFront, l, c, 0), lop(lMoveBack, l, c, 0))
			for _, d := range cs {
				o = append(o, lop(lMoveAfter, l, c, d))
			}
		}
		for k := 0; k < 2; k++ {
			if k == 1 && s.solo || s.nocopy {
				break
			}
			if n+len(s.m[k]) <= s.limit[l] {
				o = append(o, lop(lPBList, l, k, 0), lop(lPFList, l, k, 0))
			}
		}
	}
	if len(s.m[0]) > 0 {
		o = append(o, lop(lSetVal, 0, len(s.m[0])/2, 0))
	}
	return append(o, lop(lObs, 0, 0, 0))
}

func (s *bidM) Name(o uint32) string {
	k, l, a, b := int(o>>24)&0x3f, int(o>>30)&1, int(o>>12&0xfff), int(o&0xfff)
	L := string(rune('A' + l))
	nd := func(c int) string {
		if c >= 2048 {
			return fmt.Sprintf("removed%d", c-2048)
		}
		return fmt.Sprintf("%c%d", 'A'+c>>10, c&1023)
	}
	switch k {
	case lPF:
		return L + ".PushFront"
	case lPB:
		return L + ".PushBack"
	case lPopF:
		return L + ".PopFront"
	case lPopB:
		return L + ".PopBack"
	case lInsAfter:
		return L + ".InsertAfter(" + nd(a) + ")"
	case lInsBefore:
		return L + ".InsertBefore(" + nd(a) + ")"
	case lRemove:
		return L + ".Remove(" + nd(a) + ")"
	case lMoveFront:
		return L + ".MoveToFront(" + nd(a) + ")"
	case lMoveBack:
		return L + ".MoveToBack(" + nd(a) + ")"
	case lMoveAfter:
		return L + ".MoveAfter(" + nd(a) + "," + nd(b) + ")"
	case lPBList:
		return L + ".PushBackList(" + string(rune('A'+a)) + ")"
	case lPFList:
		return L + ".PushFrontList(" + string(rune('A'+a)) + ")"
	case lClear:
		return L + ".Clear"
	case lSetVal:
		return "A" + fmt.Sprint(a) + ".Value="
	}
	return "observe"
}

func (s *bidM) drop(b bnode) {
	s.gone = append(s.gone, b)
	if len(s.gone) > 2 {
		s.gone = append([]bnode(nil), s.gone[len(s.gone)-2:]...)
	}
}

func (s *bidM) Do(o uint32) error {
	k, l, a, b := int(o>>24)&0x3f, int(o>>30)&1, int(o>>12&0xfff), int(o&0xfff)
	L, m := s.l[l], s.m[l]
	n := len(m)
	own := func(c int) (int, bool) { return c & 1023, c>>10 == l }
	move := func(i, j int) { // element i to position j
		e := m[i]
		m = eraseAt(m, i, i+1)
		s.m[l] = insertAt(m, j, e)
	}
	switch k {
	case lPF:
		v := s.val()
		L.PushFront(v)
		s.m[l] = insertAt(m, 0, bnode{v, L.FrontNode()})
	case lPB:
		v := s.val()
		L.PushBack(v)
		s.m[l] = append(m, bnode{v, L.BackNode()})
	case lPopF, lPopB:
		pop, i, name := L.PopFront, 0, "PopFront()"
		if k == lPopB {
			pop, i, name = L.PopBack, n-1, "PopBack()"
		}
		if n == 0 {
			return mustPanic(name+" of an empty list", func() { pop() })
		}
		v := pop()
		e := m[i]
		s.m[l] = eraseAt(m, i, i+1)
		s.drop(e)
		return want(name, v, e.v)
	case lInsAfter, lInsBefore:
		v := s.val()
		ins, d, name := L.InsertAfter, 1, "InsertAfter"
		if k == lInsBefore {
			ins, d, name = L.InsertBefore, 0, "InsertBefore"
		}
		r := ins(v, s.node(a).n)
		i, mine := own(a)
		if !mine {
			return want(name+" with a mark of no node of the list returns nil", r == nil, true)
		}
		if r == nil || r.Value != v {
			return errf("%s returns a wrong node", name)
		}
		s.m[l] = insertAt(m, i+d, bnode{v, r})
	case lRemove:
		e := s.node(a)
		v := L.Remove(e.n)
		if i, mine := own(a); mine {
			s.m[l] = eraseAt(m, i, i+1)
			s.drop(e)
		}
		return want("Remove()", v, e.v)
	case lMoveFront:
		L.MoveToFront(s.node(a).n)
		if i, mine := own(a); mine {
			move(i, 0)
		}
	case lMoveBack:
		L.MoveToBack(s.node(a).n)
		if i, mine := own(a); mine {
			move(i, n-1)
		}
	case lMoveAfter:
		L.MoveAfter(s.node(a).n, s.node(b).n)
		i, m1 := own(a)
		j, m2 := own(b)
		if m1 && m2 && i != j {
			if i < j {
				move(i, j)
			} else {
				move(i, j+1)
			}
		}
	case lPBList, lPFList:
		src := append([]bnode(nil), s.m[a]...)
		if k == lPBList {
			L.PushBackList(s.l[a])
		} else {
			L.PushFrontList(s.l[a])
		}
		var nn []bnode
		for _, e := range src {
			nn = append(nn, bnode{e.v, nil})
		}
		// the copies are new nodes; learn them from the walk
		at := n
		if k == lPFList {
			at = 0
			s.m[l] = append(nn, m...)
		} else {
			s.m[l] = append(append([]bnode(nil), m...), nn...)
		}
		i := 0
		for x := L.FrontNode(); x != nil && i < len(s.m[l]); x = x.Next() {
			if i >= at && i < at+len(nn) {
				s.m[l][i].n = x
				for q := 0; q < 2; q++ {
					for y, e := range s.m[q] {
						if e.n == x && (q != l || y != i) {
							return errf("a copied node is not a new node")
						}
					}
				}
			}
			i++
		}
		if i != len(s.m[l]) {
			return errf("after copying a list of %d nodes into one of %d, the walk meets %d nodes", len(nn), n, i)
		}
	case lClear:
		L.Clear()
		for _, e := range m {
			s.drop(e)
		}
		s.m[l] = nil
	case lSetVal:
		v := s.val()
		if v&1 == 0 {
			bidlist.NewIterator(m[a].n).SetValue(v)
		} else {
			m[a].n.Value = v
		}
		m[a].v = v
	case lObs:
		return s.Check()
	}
	return want("Len()", L.Len(), len(s.m[l]))
}

func (s *bidM) Check() error {
	for l := 0; l < 2; l++ {
		L, m := s.l[l], s.m[l]
		n := len(m)
		if err := first(want("Len()", L.Len(), n), want("Size()", L.Size(), n), want("Empty()", L.Empty(), n == 0)); err != nil {
			return err
		}
		i := 0
		for x := L.FrontNode(); x != nil; x = x.Next() {
			if i >= n {
				return errf("the forward walk passes more than %d nodes", n)
			}
			if x.Value != m[i].v || x != m[i].n {
				return errf("the forward walk meets value %v at %d, want %v (same node: %v)", x.Value, i, m[i].v, x == m[i].n)
			}
			i++
		}
		if i != n {
			return errf("the forward walk meets %d nodes, want %d", i, n)
		}
		i = n
		for x := L.BackNode(); x != nil; x = x.Prev() {
			i--
			if i < 0 {
				return errf("the backward walk passes more than %d nodes", n)
			}
			if x.Value != m[i].v || x != m[i].n {
				return errf("the backward walk meets value %v at %d, want %v", x.Value, i, m[i].v)
			}
		}
		if i != 0 {
			return errf("the backward walk meets %d nodes, want %d", n-i, n)
		}
		if n > 0 {
			if err := first(want("Front()", L.Front(), m[0].v), want("Back()", L.Back(), m[n-1].v)); err != nil {
				return err
			}
		} else if err := first(want("FrontNode() of an empty list is nil", L.FrontNode() == nil, true), want("BackNode() of an empty list is nil", L.BackNode() == nil, true),
			mustPanic("Front() of an empty list", func() { L.Front() }), mustPanic("Back() of an empty list", func() { L.Back() })); err != nil {
			return err
		}
		var vs []Val
		for _, e := range m {
			vs = append(vs, e.v)
		}
		if n <= 60 {
			if err := want("String()", L.String(), seqString(vs)); err != nil {
				return err
			}
		}
		i = 0
		var err error
		L.Traversal(func(v Val) bool {
			if err == nil && (i >= n || v != vs[i]) {
				err = errf("traversal meets %v as number %d", v, i)
			}
			i++
			return true
		})
		if err = first(err, want("elements traversed", i, n)); err != nil {
			return err
		}
	}
	for _, e := range s.gone {
		if e.n.Value != e.v || e.n.Next() != nil || e.n.Prev() != nil {
			return errf("a removed node has value %v, want %v, and neighbours %v %v, want none", e.n.Value, e.v, e.n.Prev(), e.n.Next())
		}
	}
	return nil
}

func (s *bidM) State(h *snap.Hasher) {
	for l := 0; l < 2; l++ {
		h.Int(len(s.m[l]))
		for _, e := range s.m[l] {
			h.Val(e.v)
		}
	}
	h.Graph(s.l[0])
	h.Graph(s.l[1])
	h.Int(len(s.gone))
	for _, e := range s.gone {
		h.Val(e.v)
		h.Graph(e.n)
	}
}

// --- singly linked list

type snode struct {
	v Val
	n *simplelist.Node[Val]
}

type simM struct {
	l     *simplelist.List[Val]
	m     []snode
	next  Val
	limit int
}

func newSim(limit int) *simM { return &simM{l: simplelist.New[Val](), next: 1, limit: limit} }

func (s *simM) Len() int { return len(s.m) }
func (s *simM) val() Val { s.next++; return s.next - 1 }

func (s *simM) Ops(o []uint32) []uint32 {
	n := len(s.m)
	if n < s.limit {
		o = append(o, op(lPF, 0, 0), op(lPB, 0, 0))
	}
	for i := 0; i < n; i++ {
		if n < s.limit {
			o = append(o, op(lInsAfter, i, 0))
		}
		o = append(o, op(lRemove, i, 0), op(lMoveFront, i, 0), op(lMoveBack, i, 0))
		for j := -1; j < n && n < 12; j++ {
			if j != i-1 {
				o = append(o, op(lWrongFront, i, j))
			}
		}
	}
	if n > 0 {
		o = append(o, op(lSetVal, n/2, 0))
	}
	return append(o, op(lObs, 0, 0))
}

func (s *simM) Name(o uint32) string {
	k, a, b := unop(o)
	switch k {
	case lPF:
		return "PushFront"
	case lPB:
		return "PushBack"
	case lInsAfter:
		return fmt.Sprintf("InsertAfter(node %d)", a)
	case lRemove:
		return fmt.Sprintf("Remove(node %d-1, node %d)", a, a)
	case lMoveFront:
		return fmt.Sprintf("MoveToFront(node %d-1, node %d)", a, a)
	case lWrongFront:
		return fmt.Sprintf("MoveToFront(node %d, node %d)", b, a)
	case lMoveBack:
		return fmt.Sprintf("MoveToBack(node %d-1, node %d)", a, a)
	case lSetVal:
		return fmt.Sprintf("node %d.Value=", a)
	}
	return "observe"
}

func (s *simM) Do(o uint32) error {
	k, a, b := unop(o)
	n := len(s.m)
	pre := func() *simplelist.Node[Val] {
		if a == 0 {
			return nil
		}
		return s.m[a-1].n
	}
	switch k {
	case lPF:
		v := s.val()
		s.l.PushFront(v)
		s.m = insertAt(s.m, 0, snode{v, s.l.FrontNode()})
	case lPB:
		v := s.val()
		s.l.PushBack(v)
		s.m = append(s.m, snode{v, s.l.BackNode()})
	case lInsAfter:
		v := s.val()
		r := s.l.InsertAfter(v, s.m[a].n)
		if r == nil || r.Value != v {
			return errf("InsertAfter returns a wrong node")
		}
		s.m = insertAt(s.m, a+1, snode{v, r})
	case lRemove:
		e := s.m[a]
		v := s.l.Remove(pre(), e.n)
		s.m = eraseAt(s.m, a, a+1)
		if err := want("Remove()", v, e.v); err != nil {
			return err
		}
	case lMoveFront, lMoveBack:
		e := s.m[a]
		j := 0
		if k == lMoveFront {
			s.l.MoveToFront(pre(), e.n)
		} else {
			s.l.MoveToBack(pre(), e.n)
			j = n - 1
		}
		s.m = insertAt(eraseAt(s.m, a, a+1), j, e)
	case lWrongFront: // not the predecessor: nothing moves
		var p *simplelist.Node[Val]
		if b >= 0 {
			p = s.m[b].n
		}
		s.l.MoveToFront(p, s.m[a].n)
	case lSetVal:
		v := s.val()
		if v&1 == 0 {
			simplelist.NewIterator(s.m[a].n).SetValue(v)
		} else {
			s.m[a].n.Value = v
		}
		s.m[a].v = v
	case lObs:
		return s.Check()
	}
	return want("Len()", s.l.Len(), len(s.m))
}

func (s *simM) Check() error {
	n := len(s.m)
	if err := want("Len()", s.l.Len(), n); err != nil {
		return err
	}
	i := 0
	for x := s.l.FrontNode(); x != nil; x = x.Next() {
		if i >= n {
			return errf("the walk passes more than %d nodes", n)
		}
		if x != s.m[i].n || x.Value != s.m[i].v {
			return errf("the walk meets value %v at %d, want %v (same node: %v)", x.Value, i, s.m[i].v, x == s.m[i].n)
		}
		i++
	}
	if i != n {
		return errf("the walk meets %d nodes, want %d", i, n)
	}
	if n == 0 {
		if s.l.FrontNode() != nil || s.l.BackNode() != nil {
			return errf("an empty list has a front or back node")
		}
	} else if s.l.BackNode() != s.m[n-1].n {
		return errf("the back node is not the last node of the walk")
	}
	var vs []Val
	for _, e := range s.m {
		vs = append(vs, e.v)
	}
	if n <= 60 {
		if err := want("String()", s.l.String(), seqString(vs)); err != nil {
			return err
		}
	}
	i = 0
	var err error
	s.l.Traversal(func(v Val) bool {
		if err == nil && (i >= n || v != vs[i]) {
			err = errf("traversal meets %v as number %d", v, i)
		}
		i++
		return true
	})
	if err = first(err, want("elements traversed", i, n)); err != nil {
		return err
	}
	i = 0
	for it := simplelist.NewIterator(s.l.FrontNode()); it.IsValid(); it.Next() {
		if i >= n || it.Value() != vs[i] {
			return errf("the iterator meets %v at %d", it.Value(), i)
		}
		i++
	}
	return want("elements iterated", i, n)
}

func (s *simM) State(h *snap.Hasher) {
	h.Int(len(s.m))
	for _, e := range s.m {
		h.Val(e.v)
	}
	h.Graph(s.l)
}

func init() {
	builders["P04"] = func(c Ctx) []any {
		at := func(num, den int) func(m *bidM) int {
			return func(m *bidM) int { return len(m.m[0]) * num / den }
		}
		g := func(name string, kind int, p, q func(m *bidM) int) gen[*bidM] {
			return gen[*bidM]{name, func(m *bidM, k int) uint32 {
				if len(m.m[0]) == 0 {
					return lop(lPB, 0, 0, 0)
				}
				a, b := 0, 0
				if p != nil {
					a = min(p(m), len(m.m[0])-1)
				}
				if q != nil {
					b = min(q(m), len(m.m[0])-1)
				}
				return lop(kind, 0, a, b)
			}}
		}
		up := []gen[*bidM]{g("PushBack", lPB, nil, nil), g("PushFront", lPF, nil, nil), g("InsertAfter(half)", lInsAfter, at(1, 2), nil),
			g("InsertBefore(third)", lInsBefore, at(1, 3), nil), g("InsertBefore(first)", lInsBefore, at(0, 1), nil), g("InsertAfter(last)", lInsAfter, at(1, 1), nil),
			g("MoveAfter(third,last)", lMoveAfter, at(1, 3), at(1, 1)), g("MoveToFront(half)", lMoveFront, at(1, 2), nil), g("MoveToBack(first)", lMoveBack, at(0, 1), nil)}
		down := []gen[*bidM]{g("PopBack", lPopB, nil, nil), g("PopFront", lPopF, nil, nil), g("Remove(half)", lRemove, at(1, 2), nil), g("Remove(last)", lRemove, at(1, 1), nil),
			g("MoveAfter(last,third)", lMoveAfter, at(1, 1), at(1, 3)), g("MoveToBack(half)", lMoveBack, at(1, 2), nil), g("MoveToFront(last)", lMoveFront, at(1, 1), nil)}
		return []any{
			&core.Spec{Name: "one list, all histories", Roots: 1, Depth: c.Pick(40, 80), Max: c.Pick(150000, 3000000),
				Root: func(int) core.Machine { s := newBid(c.Pick(7, 9), 0); s.solo = true; return s }},
			&core.Spec{Name: "one list without copying lists, all histories", Roots: 1, Depth: c.Pick(120, 300),
				Root: func(int) core.Machine { s := newBid(c.Pick(24, 60), 0); s.solo, s.nocopy = true, true; return s }},
			&core.Spec{Name: "two lists and removed nodes, all histories", Roots: 1, Depth: c.Pick(40, 80), Max: c.Pick(120000, 3000000),
				Root: func(int) core.Machine { return newBid(c.Pick(4, 5), c.Pick(3, 4)) }},
			periodic("periodic histories", func() *bidM { s := newBid(1<<10, 0); s.solo = true; return s }, up, down, 2, 2, c.Pick(70, 300), c.Pick(250, 1200), 37),
			lives("long lives", func() *bidM { s := newBid(1<<10, 0); s.solo = true; return s }, up[:6], down[:4], 3, c.Pick(66000, 140000)),
		}
	}
	builders["P05"] = func(c Ctx) []any {
		at := func(num, den int) func(m *simM) int {
			return func(m *simM) int { return len(m.m) * num / den }
		}
		g := func(name string, kind int, p func(m *simM) int) gen[*simM] {
			return gen[*simM]{name, func(m *simM, k int) uint32 {
				if len(m.m) == 0 {
					return op(lPB, 0, 0)
				}
				a := 0
				if p != nil {
					a = min(p(m), len(m.m)-1)
				}
				return op(kind, a, 0)
			}}
		}
		up := []gen[*simM]{g("PushBack", lPB, nil), g("PushFront", lPF, nil), g("InsertAfter(half)", lInsAfter, at(1, 2)), g("InsertAfter(last)", lInsAfter, at(1, 1)), g("InsertAfter(first)", lInsAfter, at(0, 1)),
			g("MoveToFront(half)", lMoveFront, at(1, 2)), g("MoveToBack(third)", lMoveBack, at(1, 3)), g("MoveToFront(last)", lMoveFront, at(1, 1)), g("MoveToBack(first)", lMoveBack, at(0, 1))}
		down := []gen[*simM]{g("Remove(half)", lRemove, at(1, 2)), g("Remove(last)", lRemove, at(1, 1)), g("Remove(first)", lRemove, at(0, 1)),
			g("MoveToFront(half)", lMoveFront, at(1, 2)), g("MoveToBack(third)", lMoveBack, at(1, 3)), g("MoveToFront(last)", lMoveFront, at(1, 1)), g("MoveToBack(first)", lMoveBack, at(0, 1))}
		return []any{
			&core.Spec{Name: "all histories", Roots: 1, Depth: c.Pick(120, 300), Max: c.Pick(200000, 3000000),
				Root: func(int) core.Machine { return newSim(c.Pick(40, 100)) }},
			periodic("periodic histories", func() *simM { return newSim(1 << 10) }, up, down, 2, 2, c.Pick(70, 300), c.Pick(250, 1200), 37),
			lives("long lives", func() *simM { return newSim(1 << 10) }, up[:5], down[:3], 3, c.Pick(66000, 140000)),
		}
	}
}
