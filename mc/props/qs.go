package props

import (
	"fmt"
	"slices"

	"github.com/liyue201/gostl/ds/container"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/priorityqueue"
	"github.com/liyue201/gostl/ds/queue"
	"github.com/liyue201/gostl/ds/stack"
	"verifmc/core"
	"verifmc/snap"
)

const (
	qPush = iota + 1
	qPop
	qClear
	qObs
	qPush2 // priority queues: push with a chosen priority
)

// sliceCont is a container of our own.
type sliceCont struct{ s []Val }

func (c *sliceCont) PushBack(v Val)  { c.s = append(c.s, v) }
func (c *sliceCont) PushFront(v Val) { c.s = insertAt(c.s, 0, v) }
func (c *sliceCont) Front() Val      { return c.s[0] }
func (c *sliceCont) Back() Val       { return c.s[len(c.s)-1] }
func (c *sliceCont) PopFront() Val   { v := c.s[0]; c.s = append([]Val(nil), c.s[1:]...); return v }
func (c *sliceCont) PopBack() Val    { v := c.s[len(c.s)-1]; c.s = c.s[:len(c.s)-1]; return v }
func (c *sliceCont) Empty() bool     { return len(c.s) == 0 }
func (c *sliceCont) Size() int       { return len(c.s) }
func (c *sliceCont) String() string  { return seqString(c.s) }
func (c *sliceCont) Clear()          { c.s = nil }

var _ container.Container[Val] = (*sliceCont)(nil)

// qsM is a queue or a stack.
type qsM struct {
	q     *queue.Queue[Val]
	st    *stack.Stack[Val]
	m     []Val
	next  Val
	limit int
	cont  container.Container[Val] // given to it, or nil
}

const qsKinds = 8 // default, list, then given: own container, deque, list, and the three with values in them

func qsRoots() int { return qsKinds * 2 * 2 }

func newQS(r, limit int) *qsM { return newQSWith(r, limit, nil) }

// options of queues and stacks; given to several constructors, each is the same for all of them.
type qsOpts struct {
	qSafe, qList queue.Option[Val]
	sSafe, sList stack.Option[Val]
}

func newQSOpts() *qsOpts {
	return &qsOpts{queue.WithGoroutineSafe[Val](), queue.WithListContainer[Val](), stack.WithGoroutineSafe[Val](), stack.WithListContainer[Val]()}
}

func newQSWith(r, limit int, opts *qsOpts) *qsM {
	if opts == nil {
		opts = newQSOpts()
	}
	kind, safe, isStack := r%qsKinds, r/qsKinds%2 == 1, r/qsKinds/2 == 1
	s := &qsM{next: 1, limit: limit}
	var cont container.Container[Val]
	switch kind {
	case 2, 5:
		cont = &sliceCont{}
	case 3, 6:
		cont = deque.New[Val]()
	case 4, 7:
		cont = bidlist.New[Val]()
	}
	s.cont = cont
	if kind >= 5 {
		for ; s.next <= 2; s.next++ {
			cont.PushBack(s.next)
			s.m = append(s.m, s.next)
		}
	}
	if isStack {
		var o []stack.Option[Val]
		if kind == 1 {
			o = append(o, opts.sList)
		} else if cont != nil {
			o = append(o, stack.WithContainer[Val](cont))
		}
		if safe {
			o = append(o, opts.sSafe)
		}
		s.st = stack.New[Val](o...)
	} else {
		var o []queue.Option[Val]
		if safe {
			o = append(o, opts.qSafe)
		}
		if kind == 1 {
			o = append(o, opts.qList)
		} else if cont != nil {
			o = append(o, queue.WithContainer[Val](cont))
		}
		s.q = queue.New[Val](o...)
	}
	return s
}

func (s *qsM) Len() int { return len(s.m) }
func (s *qsM) Ops(o []uint32) []uint32 {
	if len(s.m) < s.limit {
		o = append(o, op(qPush, 0, 0))
	}
	return append(o, op(qPop, 0, 0), op(qClear, 0, 0), op(qObs, 0, 0))
}
func (s *qsM) Name(o uint32) string {
	k, _, _ := unop(o)
	return [...]string{"", "Push", "Pop", "Clear", "observe"}[k]
}
func (s *qsM) Do(o uint32) error {
	k, _, _ := unop(o)
	n := len(s.m)
	switch k {
	case qPush:
		v := s.next
		s.next++
		if s.q != nil {
			s.q.Push(v)
		} else {
			s.st.Push(v)
		}
		s.m = append(s.m, v)
	case qPop:
		if n == 0 {
			return first(mustPanic("Pop() of an empty one", func() {
				if s.q != nil {
					s.q.Pop()
				} else {
					s.st.Pop()
				}
			}))
		}
		if s.q != nil {
			e := s.m[0]
			s.m = s.m[1:]
			return first(want("Pop()", s.q.Pop(), e), s.size())
		}
		e := s.m[n-1]
		s.m = s.m[:n-1]
		return first(want("Pop()", s.st.Pop(), e), s.size())
	case qClear:
		if s.q != nil {
			s.q.Clear()
		} else {
			s.st.Clear()
		}
		s.m = nil
	case qObs:
		return s.Check()
	}
	return s.size()
}
func (s *qsM) size() error {
	n := len(s.m)
	if s.cont != nil {
		if err := want("size of the container given to it", s.cont.Size(), n); err != nil {
			return err
		}
	}
	if s.q != nil {
		return first(want("Size()", s.q.Size(), n), want("Empty()", s.q.Empty(), n == 0))
	}
	return first(want("Size()", s.st.Size(), n), want("Empty()", s.st.Empty(), n == 0))
}
func (s *qsM) Check() error {
	if err := s.size(); err != nil {
		return err
	}
	n := len(s.m)
	if s.q != nil {
		if n == 0 {
			return first(mustPanic("Front() of an empty queue", func() { s.q.Front() }), mustPanic("Back() of an empty queue", func() { s.q.Back() }), want("String()", s.q.String(), "[]"))
		}
		err := first(want("Front()", s.q.Front(), s.m[0]), want("Back()", s.q.Back(), s.m[n-1]))
		if n <= 40 || n%61 == 0 {
			err = first(err, want("String()", s.q.String(), seqString(s.m)))
		}
		return err
	}
	if n == 0 {
		return first(mustPanic("Top() of an empty stack", func() { s.st.Top() }), want("String()", s.st.String(), "[]"))
	}
	err := want("Top()", s.st.Top(), s.m[n-1])
	if n <= 40 || n%61 == 0 {
		err = first(err, want("String()", s.st.String(), seqString(s.m)))
	}
	return err
}
func (s *qsM) State(h *snap.Hasher) {
	h.Vals(s.m)
	if s.q != nil {
		h.Graph(s.q)
	} else {
		h.Graph(s.st)
	}
}

// --- priority queue

type pqe struct {
	p int // priority class
	v Val // identity, in push order
}

type pqM struct {
	q     *priorityqueue.PriorityQueue[pqe]
	m     []pqe // in push order
	next  Val
	limit int
	prios int
	cmp   func(a, b pqe) int
}

var pqCmps = []func(a, b pqe) int{
	func(a, b pqe) int { return a.p - b.p },
	func(a, b pqe) int { return b.p - a.p },
	func(a, b pqe) int { return 1000 * (a.p - b.p) },
	func(a, b pqe) int { return a.p/2 - b.p/2 },
}

func newPQ(r, limit, prios int) *pqM {
	c := pqCmps[r%len(pqCmps)]
	var o []priorityqueue.Option
	if r/len(pqCmps) == 1 {
		o = append(o, priorityqueue.WithGoroutineSafe())
	}
	return &pqM{q: priorityqueue.New[pqe](c, o...), next: 1, limit: limit, prios: prios, cmp: c}
}
func (s *pqM) Len() int { return len(s.m) }
func (s *pqM) Ops(o []uint32) []uint32 {
	if len(s.m) < s.limit {
		for p := 0; p < s.prios; p++ {
			o = append(o, op(qPush, p, 0))
		}
	}
	return append(o, op(qPop, 0, 0), op(qClear, 0, 0), op(qObs, 0, 0))
}
func (s *pqM) Name(o uint32) string {
	k, a, _ := unop(o)
	return [...]string{"", fmt.Sprintf("Push(priority %d)", a), "Pop", "Clear", "observe"}[k]
}
func (s *pqM) best() int {
	b := 0
	for i := range s.m {
		if s.cmp(s.m[i], s.m[b]) < 0 {
			b = i
		}
	}
	return b
}
func (s *pqM) Do(o uint32) error {
	k, a, _ := unop(o)
	switch k {
	case qPush:
		e := pqe{a, s.next}
		s.next++
		s.q.Push(e)
		s.m = append(s.m, e)
	case qPop:
		if len(s.m) == 0 {
			return mustPanic("Pop() of an empty priority queue", func() { s.q.Pop() })
		}
		b := s.best()
		e := s.m[b]
		s.m = slices.Delete(s.m, b, b+1)
		if err := want("Pop()", s.q.Pop(), e); err != nil {
			return err
		}
	case qClear:
		s.q.Clear()
		s.m = nil
	case qObs:
		return s.Check()
	}
	return first(want("Size()", s.q.Size(), len(s.m)), want("Empty()", s.q.Empty(), len(s.m) == 0))
}
func (s *pqM) Check() error {
	if err := first(want("Size()", s.q.Size(), len(s.m)), want("Empty()", s.q.Empty(), len(s.m) == 0)); err != nil {
		return err
	}
	if len(s.m) == 0 {
		return mustPanic("Top() of an empty priority queue", func() { s.q.Top() })
	}
	return want("Top()", s.q.Top(), s.m[s.best()])
}
func (s *pqM) State(h *snap.Hasher) {
	h.Int(len(s.m))
	for _, e := range s.m {
		h.Int(e.p)
		h.Val(e.v)
	}
	h.Graph(s.q)
}

// pqEnum pushes every sequence of priorities and pops everything, with pops in between.
func pqEnum(name string, n, prios int) *core.Enum {
	N := int64(1)
	for i := 0; i < n; i++ {
		N *= int64(prios)
	}
	dec := func(i int64) []int {
		x := make([]int, n)
		for k := range x {
			x[k] = int(i % int64(prios))
			i /= int64(prios)
		}
		return x
	}
	return &core.Enum{Name: name, N: N * 3,
		Show: func(i int64) string {
			return fmt.Sprintf("push priorities %v (pops in between: mode %d), pop everything", dec(i/3), i%3)
		},
		Run: func(w *core.Worker, i int64) (int64, error) {
			mode := int(i % 3)
			s := newPQ(mode, n+1, prios)
			ops := int64(0)
			do := func(o uint32) error {
				ops++
				if err := s.Do(o); err != nil {
					return errf("operation %d %s: %w", ops, s.Name(o), err)
				}
				return s.Check()
			}
			for k, p := range dec(i / 3) {
				if err := do(op(qPush, p, 0)); err != nil {
					return ops, err
				}
				if mode == 1 && k%3 == 2 || mode == 2 && k%5 == 4 {
					if err := do(op(qPop, 0, 0)); err != nil {
						return ops, err
					}
				}
			}
			for len(s.m) > 0 {
				if err := do(op(qPop, 0, 0)); err != nil {
					return ops, err
				}
			}
			return ops, nil
		}}
}

func init() {
	builders["P06"] = func(c Ctx) []any {
		if c.Variant != "plain" {
			return []any{&core.Spec{Name: "queues and stacks, all histories, " + c.Variant, Roots: qsRoots(), Depth: c.Pick(60, 400), Max: c.Pick(60000, 1000000),
				Root: func(r int) core.Machine { return newQS(r, c.Pick(14, 40)) }}}
		}
		push := gen[*qsM]{"Push", func(m *qsM, k int) uint32 { return op(qPush, 0, 0) }}
		pop := gen[*qsM]{"Pop", func(m *qsM, k int) uint32 { return op(qPop, 0, 0) }}
		parts := []any{
			&core.Spec{Name: "queues and stacks, all histories", Roots: qsRoots(), Depth: c.Pick(300, 700), Max: c.Pick(40000, 1000000),
				Root: func(r int) core.Machine { return newQS(r, c.Pick(2, 5)) }},
		}
		for r := 0; r < qsRoots(); r++ {
			top := c.Pick(700, 3000)
			if r%qsKinds > 4 {
				continue
			}
			if r%qsKinds == 2 {
				top = 200
			}
			parts = append(parts, periodic(fmt.Sprintf("periodic histories, kind %d", r), func() *qsM { return newQS(r, 1<<20) }, []gen[*qsM]{push, pop}, []gen[*qsM]{pop, push}, c.Pick(2, 4), 3, top, 2*top, 7),
				lives(fmt.Sprintf("long lives, kind %d", r), func() *qsM { return newQS(r, 1<<20) }, []gen[*qsM]{push}, []gen[*qsM]{pop}, 3, c.Pick(66000, 140000)))
		}
		return parts
	}
	builders["P07"] = func(c Ctx) []any {
		g := func(name string, f func(k int) int) gen[*pqM] {
			return gen[*pqM]{name, func(m *pqM, k int) uint32 { return op(qPush, f(k), 0) }}
		}
		up := []gen[*pqM]{g("Push(ascending)", func(k int) int { return k & 1023 }), g("Push(descending)", func(k int) int { return 1023 - k&1023 }), g("Push(same)", func(k int) int { return 500 }),
			g("Push(scattered)", func(k int) int { return k * 389 & 1023 }), g("Push(few)", func(k int) int { return k * 7 % 5 }), {"Pop", func(m *pqM, k int) uint32 { return op(qPop, 0, 0) }}}
		down := []gen[*pqM]{{"Pop", func(m *pqM, k int) uint32 { return op(qPop, 0, 0) }}, g("Push(few)", func(k int) int { return k * 7 % 5 }), g("Push(scattered)", func(k int) int { return k * 389 & 1023 })}
		parts := []any{
			&core.Spec{Name: "all histories", Roots: 2 * len(pqCmps), Depth: c.Pick(11, 16), Max: c.Pick(400000, 4000000),
				Root: func(r int) core.Machine { return newPQ(r, c.Pick(5, 7), 3) }},
			pqEnum("all priority sequences", c.Pick(9, 11), 4),
			pqEnum("all two-priority sequences", c.Pick(15, 19), 2),
		}
		for r := 0; r < len(pqCmps); r++ {
			parts = append(parts, periodic(fmt.Sprintf("periodic histories, comparator %d", r), func() *pqM { return newPQ(r, 1<<20, 0) }, up, down, 2, 3, c.Pick(100, 600), c.Pick(400, 2000), 1),
				lives(fmt.Sprintf("long lives, comparator %d", r), func() *pqM { return newPQ(r, 1<<20, 0) }, up[:5], down[:1], 3, c.Pick(66000, 140000)))
		}
		return parts
	}
}
