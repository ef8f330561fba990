package props

import (
	"fmt"
	"math/bits"

	"github.com/liyue201/gostl/ds/heap"
	"verifmc/core"
	"verifmc/snap"
)

type helem struct {
	p  int
	id int
}

// hcol is a user's collection, which counts what it is asked.
type hcol struct {
	e    []helem
	less int
	swap int
	rev  bool
	bad  string
}

func (h *hcol) Len() int { return len(h.e) }
func (h *hcol) Less(i, j int) bool {
	h.less++
	if i < 0 || j < 0 || i >= len(h.e) || j >= len(h.e) {
		h.bad = fmt.Sprintf("Less(%d,%d) with %d elements", i, j, len(h.e))
		return false
	}
	if h.rev {
		return h.e[i].p > h.e[j].p
	}
	return h.e[i].p < h.e[j].p
}
func (h *hcol) Swap(i, j int) {
	h.swap++
	h.e[i], h.e[j] = h.e[j], h.e[i]
}
func (h *hcol) Push(x helem) { h.e = append(h.e, x) }
func (h *hcol) Pop() helem {
	x := h.e[len(h.e)-1]
	h.e = h.e[:len(h.e)-1]
	return x
}

func (h *hcol) before(a, b helem) bool {
	if h.rev {
		return a.p > b.p
	}
	return a.p < b.p
}

func (h *hcol) isHeap() bool {
	for i := 1; i < len(h.e); i++ {
		if h.before(h.e[i], h.e[(i-1)/2]) {
			return false
		}
	}
	return true
}

func (h *hcol) verify(want []helem) error {
	if h.bad != "" {
		return errf("%s", h.bad)
	}
	for i := 1; i < len(h.e); i++ {
		if h.before(h.e[i], h.e[(i-1)/2]) {
			return errf("not in heap order: element %d precedes its parent: %v", i, h.e)
		}
	}
	if len(h.e) != len(want) {
		return errf("%d elements, want %d", len(h.e), len(want))
	}
	mx := -1
	for _, x := range want {
		mx = max(mx, x.id)
	}
	at := make([]int32, mx+1)
	for i, x := range want {
		at[x.id] = int32(i) + 1
	}
	for _, x := range h.e {
		if x.id > mx || x.id < 0 || at[x.id] == 0 || want[at[x.id]-1] != x {
			return errf("elements %v, want %v in heap order", h.e, want)
		}
		at[x.id] = 0
	}
	return nil
}

func (h *hcol) cost(what string, n int) error {
	l := bits.Len(uint(n))
	if h.less > 6*l+12 || h.swap > 6*l+12 {
		return errf("%s with %d elements took %d comparisons and %d swaps", what, n, h.less, h.swap)
	}
	return nil
}

// heapM drives one collection through heap operations.
type heapM struct {
	h     *hcol
	next  int
	limit int
	prios int
}

const (
	hPush = iota + 1
	hPop
	hRemove
	hFix
	hInit
)

func (s *heapM) Len() int { return len(s.h.e) }
func (s *heapM) Ops(o []uint32) []uint32 {
	n := len(s.h.e)
	if n < s.limit {
		for p := 0; p < s.prios; p++ {
			o = append(o, op(hPush, p, 0))
		}
	}
	if n > 0 {
		o = append(o, op(hPop, 0, 0))
	}
	for i := 0; i < n; i++ {
		o = append(o, op(hRemove, i, 0))
		for p := 0; p < s.prios; p++ {
			o = append(o, op(hFix, i, p))
		}
	}
	return append(o, op(hInit, 0, 0))
}
func (s *heapM) Name(o uint32) string {
	k, a, b := unop(o)
	switch k {
	case hPush:
		return fmt.Sprintf("Push(%d)", a)
	case hPop:
		return "Pop"
	case hRemove:
		return fmt.Sprintf("Remove(%d)", a)
	case hFix:
		return fmt.Sprintf("element %d becomes %d, Fix(%d)", a, b, a)
	}
	return "Init"
}
func (s *heapM) Do(o uint32) error {
	k, a, b := unop(o)
	h := s.h
	n := len(h.e)
	want := append([]helem(nil), h.e...)
	h.less, h.swap = 0, 0
	name := s.Name(o)
	switch k {
	case hPush:
		e := helem{a, s.next}
		s.next++
		heap.Push[helem](h, e)
		want = append(want, e)
	case hPop:
		e := want[0]
		g := heap.Pop[helem](h)
		for _, x := range want {
			if h.before(x, g) {
				return errf("Pop() = %v, but %v precedes it", g, x)
			}
		}
		_ = e
		ok := false
		for i, x := range want {
			if x == g {
				want = eraseAt(want, i, i+1)
				ok = true
				break
			}
		}
		if !ok {
			return errf("Pop() returned %v, which was not in the heap", g)
		}
	case hRemove:
		e := want[a]
		g := heap.Remove[helem](h, a)
		if g != e {
			return errf("Remove(%d) = %v, want %v", a, g, e)
		}
		want = eraseAt(want, a, a+1)
	case hFix:
		h.e[a].p = b
		want[a].p = b
		heap.Fix[helem](h, a)
	case hInit:
		heap.Init[helem](h)
		return h.verify(want)
	}
	return first(h.verify(want), h.cost(name, n))
}
func (s *heapM) Check() error { return nil }
func (s *heapM) State(h *snap.Hasher) {
	h.Int(len(s.h.e))
	for _, e := range s.h.e {
		h.Int(e.p)
	}
}

// heapEnum applies every operation to every array.
func heapEnum(name string, n, prios int) *core.Enum {
	N := int64(1)
	for i := 0; i < n; i++ {
		N *= int64(prios)
	}
	mk := func(i int64) []helem {
		e := make([]helem, n)
		for k := range e {
			e[k] = helem{int(i % int64(prios)), k}
			i /= int64(prios)
		}
		return e
	}
	return &core.Enum{Name: name, N: N,
		Show: func(i int64) string {
			return fmt.Sprintf("priorities %v: Init, and if in heap order Push, Pop, Remove and Fix of everything", mk(i))
		},
		Run: func(w *core.Worker, i int64) (int64, error) {
			ops := int64(1)
			src := mk(i)
			h := &hcol{e: append([]helem(nil), src...), rev: i%2 == 1}
			heap.Init[helem](h)
			if err := h.verify(src); err != nil {
				return 1, errf("Init: %w", err)
			}
			h = &hcol{e: src}
			if !h.isHeap() {
				return 1, nil
			}
			m := &heapM{limit: n + 1, prios: prios + 2}
			for _, o := range (&heapM{h: &hcol{e: src}, limit: n + 1, prios: prios + 1}).Ops(nil) {
				// priorities shifted so that new ones may lie below all others
				m.h, m.next = &hcol{e: append([]helem(nil), src...)}, n
				for k := range m.h.e {
					m.h.e[k].p++
				}
				ops++
				if err := m.Do(o); err != nil {
					return ops, errf("%s: %w", m.Name(o), err)
				}
			}
			return ops, nil
		}}
}

func init() {
	builders["P08"] = func(c Ctx) []any {
		g := func(name string, f func(m *heapM, k int) uint32) gen[*heapM] {
			return gen[*heapM]{name, func(m *heapM, k int) uint32 {
				if len(m.h.e) == 0 {
					return op(hPush, k&1023, 0)
				}
				return f(m, k)
			}}
		}
		up := []gen[*heapM]{
			g("Push(ascending)", func(m *heapM, k int) uint32 { return op(hPush, k&1023, 0) }),
			g("Push(descending)", func(m *heapM, k int) uint32 { return op(hPush, 1023-k&1023, 0) }),
			g("Push(scattered)", func(m *heapM, k int) uint32 { return op(hPush, k*389&1023, 0) }),
			g("Push(few)", func(m *heapM, k int) uint32 { return op(hPush, k*7%5, 0) }),
			g("Fix(scattered)", func(m *heapM, k int) uint32 { return op(hFix, k*61%len(m.h.e), k*577&1023) }),
			g("Remove(scattered)", func(m *heapM, k int) uint32 { return op(hRemove, k*67%len(m.h.e), 0) }),
			g("Pop", func(m *heapM, k int) uint32 { return op(hPop, 0, 0) }),
		}
		down := []gen[*heapM]{
			g("Pop", func(m *heapM, k int) uint32 { return op(hPop, 0, 0) }),
			g("Remove(last)", func(m *heapM, k int) uint32 { return op(hRemove, len(m.h.e)-1, 0) }),
			g("Remove(half)", func(m *heapM, k int) uint32 { return op(hRemove, len(m.h.e)/2, 0) }),
			g("Remove(scattered)", func(m *heapM, k int) uint32 { return op(hRemove, k*67%len(m.h.e), 0) }),
			g("Fix(first)", func(m *heapM, k int) uint32 { return op(hFix, 0, k*577&1023) }),
		}
		parts := []any{
			&core.Spec{Name: "all histories", Roots: 2, Depth: c.Pick(30, 30), Max: c.Pick(300000, 4000000),
				Root: func(r int) core.Machine {
					return &heapM{h: &hcol{rev: r == 1}, limit: c.Pick(7, 9), prios: 4}
				}},
			periodic("periodic histories", func() *heapM { return &heapM{h: &hcol{}, limit: 1 << 20} }, up, down, 2, 2, c.Pick(300, 1500), c.Pick(500, 3000), 1000),
		}
		for n := 0; n <= c.Pick(8, 10); n++ {
			parts = append(parts, heapEnum(fmt.Sprintf("all arrays of %d elements, 4 priorities", n), n, 4))
		}
		for n := c.Pick(9, 11); n <= c.Pick(15, 19); n++ {
			parts = append(parts, heapEnum(fmt.Sprintf("all arrays of %d elements, 2 priorities", n), n, 2))
		}
		return append(parts, heapEnum("all arrays of 7 elements, 6 priorities", 7, c.Pick(6, 7)))
	}
}
