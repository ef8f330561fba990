package props

import (
	"fmt"
	"slices"
	"sort"

	"github.com/liyue201/gostl/ds/deque"
	"verifmc/core"
	"verifmc/snap"
)

const (
	dPF = iota + 1
	dPB
	dPopF
	dPopB
	dIns
	dSet
	dErase
	dEraseRange
	dClear
	dObs
	dIterSet
)

// dequeM is a deque next to a slice.
type dequeM struct {
	d     *deque.Deque[Val]
	m     []Val
	next  Val
	limit int  // largest size
	big   bool // choose positions instead of taking all
	bad   bool // include out of range arguments
	full1 bool // all positions
}

func newDeque() *dequeM { return &dequeM{d: deque.New[Val](), next: 1, bad: true} }

func (s *dequeM) val() Val { s.next++; return s.next - 1 }

func (s *dequeM) Ops(o []uint32) []uint32 {
	n := len(s.m)
	if n < s.limit {
		o = append(o, op(dPF, 0, 0), op(dPB, 0, 0))
	}
	o = append(o, op(dPopF, 0, 0), op(dPopB, 0, 0))
	var pos []int
	if s.big && !s.full1 {
		pos = near(n, 128, 256)
	} else {
		for i := 0; i <= n; i++ {
			pos = append(pos, i)
		}
	}
	for _, i := range pos {
		if i > 0 && i < n && n < s.limit {
			o = append(o, op(dIns, i, 0))
		}
		if i < n {
			o = append(o, op(dErase, i, 0))
			o = append(o, op(dSet, i, 0))
		}
	}
	rp := pos
	if s.big {
		rp = []int{0, 1, n / 2, n - 1, n, 128, n - 128}
		sort.Ints(rp)
		rp = slices.Compact(rp)
		if rp[0] < 0 {
			rp = rp[1:]
		}
		if s.full1 {
			rp = near(n, 128)
		}
	}
	for _, i := range rp {
		for _, j := range rp {
			if i < j {
				o = append(o, op(dEraseRange, i, j))
			}
		}
	}
	if n < s.limit {
		o = append(o, op(dIns, 0, 0), op(dIns, n, 0))
	}
	if s.bad {
		o = append(o, op(dIns, -1, 0), op(dIns, n+1, 0), op(dErase, -1, 0), op(dErase, n, 0), op(dSet, -1, 0), op(dSet, n, 0),
			op(dEraseRange, 0, n+1), op(dEraseRange, -1, 1), op(dEraseRange, n/2, n/2), op(dEraseRange, n, 0))
	}
	o = append(o, op(dClear, 0, 0), op(dObs, 0, 0))
	if n > 0 {
		o = append(o, op(dIterSet, n/2, 0))
	}
	return o
}

func (s *dequeM) Name(o uint32) string {
	k, a, b := unop(o)
	switch k {
	case dPF:
		return "PushFront"
	case dPB:
		return "PushBack"
	case dPopF:
		return "PopFront"
	case dPopB:
		return "PopBack"
	case dIns:
		return fmt.Sprintf("Insert(%d)", a)
	case dSet:
		return fmt.Sprintf("Set(%d)", a)
	case dErase:
		return fmt.Sprintf("EraseAt(%d)", a)
	case dEraseRange:
		return fmt.Sprintf("EraseRange(%d,%d)", a, b)
	case dClear:
		return "Clear"
	case dIterSet:
		return fmt.Sprintf("IterAt(%d).SetValue", a)
	}
	return "observe"
}

func (s *dequeM) Do(o uint32) error {
	k, a, b := unop(o)
	n := len(s.m)
	switch k {
	case dPF:
		v := s.val()
		s.d.PushFront(v)
		s.m = insertAt(s.m, 0, v)
	case dPB:
		v := s.val()
		s.d.PushBack(v)
		s.m = append(s.m, v)
	case dPopF:
		if n == 0 {
			return mustPanic("PopFront of an empty deque", func() { s.d.PopFront() })
		}
		v := s.d.PopFront()
		e := s.m[0]
		s.m = eraseAt(s.m, 0, 1)
		return want("PopFront()", v, e)
	case dPopB:
		if n == 0 {
			return mustPanic("PopBack of an empty deque", func() { s.d.PopBack() })
		}
		v := s.d.PopBack()
		e := s.m[n-1]
		s.m = s.m[:n-1]
		return want("PopBack()", v, e)
	case dIns:
		v := s.val()
		s.d.Insert(a, v)
		if a >= 0 && a <= n {
			s.m = insertAt(s.m, a, v)
		}
	case dSet:
		v := s.val()
		err := s.d.Set(a, v)
		if a >= 0 && a < n {
			s.m[a] = v
		}
		return want(fmt.Sprintf("Set(%d) fails", a), err != nil, a < 0 || a >= n)
	case dIterSet:
		v := s.val()
		s.d.IterAt(a).SetValue(v)
		s.m[a] = v
	case dErase:
		s.d.EraseAt(a)
		if a >= 0 && a < n {
			s.m = eraseAt(s.m, a, a+1)
		}
	case dEraseRange:
		s.d.EraseRange(a, b)
		if a >= 0 && a < b && b <= n {
			s.m = eraseAt(s.m, a, b)
		}
	case dClear:
		s.d.Clear()
		s.m = s.m[:0]
	case dObs:
		return s.Check()
	}
	return want("Size()", s.d.Size(), len(s.m))
}

func (s *dequeM) Check() error {
	n := len(s.m)
	if err := first(want("Size()", s.d.Size(), n), want("Empty()", s.d.Empty(), n == 0)); err != nil {
		return err
	}
	for i, v := range s.m {
		if g := s.d.At(i); g != v {
			return errf("At(%d) = %v, want %v", i, g, v)
		}
	}
	if n > 0 {
		if err := first(want("Front()", s.d.Front(), s.m[0]), want("Back()", s.d.Back(), s.m[n-1])); err != nil {
			return err
		}
	} else if err := first(mustPanic("Front() of an empty deque", func() { s.d.Front() }), mustPanic("Back() of an empty deque", func() { s.d.Back() })); err != nil {
		return err
	}
	if err := first(mustPanic("At(-1)", func() { s.d.At(-1) }), mustPanic("At(size)", func() { s.d.At(n) })); err != nil {
		return err
	}
	if n <= 40 {
		if err := want("String()", s.d.String(), seqString(s.m)); err != nil {
			return err
		}
	}
	return checkRA[Val](s.m, s.d.Begin(), s.d.End(), s.d.First(), s.d.Last(), func(i int) raIter[Val] { return s.d.IterAt(i) })
}

func (s *dequeM) State(h *snap.Hasher) {
	h.Vals(s.m)
	h.Graph(s.d)
}

// dequeRoots lists how large initial deques are built: values pushed at the
// front, at the back, then popped from the front, from the back.
func dequeRoots(c Ctx) [][4]int {
	var out [][4]int
	for _, f := range []int{0, 1, 63, 64, 127, 128, 129, 256, 300} {
		for _, b := range []int{0, 1, 64, 127, 128, 129, 255, 256, 257, 384} {
			out = append(out, [4]int{f, b, 0, 0})
		}
	}
	for _, r := range [][4]int{{0, 600, 100, 0}, {0, 600, 128, 0}, {0, 600, 129, 1}, {600, 0, 1, 127}, {300, 300, 200, 100},
		{0, 1100, 0, 0}, {0, 1100, 900, 0}, {1100, 0, 0, 900}, {0, 1300, 1170, 0}, {500, 500, 480, 480}, {200, 0, 0, 199}, {0, 200, 199, 0}, {0, 640, 1, 0}, {640, 0, 0, 1}, {128, 512, 0, 0}, {1, 639, 0, 0}, {639, 1, 0, 0}} {
		out = append(out, r)
	}
	return out
}

func bigDeque(r [4]int) *dequeM {
	s := newDeque()
	for i := 0; i < max(r[0], r[1]); i++ {
		if i < r[0] {
			s.Do(op(dPF, 0, 0))
		}
		if i < r[1] {
			s.Do(op(dPB, 0, 0))
		}
	}
	for i := 0; i < r[2]; i++ {
		s.d.PopFront()
	}
	s.m = append([]Val(nil), s.m[r[2]:]...)
	for i := 0; i < r[3]; i++ {
		s.d.PopBack()
	}
	s.m = s.m[:len(s.m)-r[3]]
	s.limit, s.big, s.bad = 1<<11, true, false
	return s
}

// dequePattern drives a deque through long periodic histories: grow, shrink,
// grow again, each phase repeating a short pattern of operations.
func dequePattern(name string, top []int) *core.Enum {
	grow := [][]int{{0}, {1}, {0, 1}, {0, 0, 1}, {0, 1, 1}, {2}, {3}, {4}, {0, 2}, {1, 3}, {2, 4}, {0, 1, 3}, {5}}
	shrink := [][]int{{0}, {1}, {0, 1}, {0, 0, 1}, {2}, {3}, {4}, {0, 3}, {1, 2}, {5}, {6}}
	n := len(grow) * len(shrink) * len(grow) * len(top)
	dec := func(i int64) (g, sh, g2 []int, t int) {
		x := int(i)
		t = top[x%len(top)]
		x /= len(top)
		g = grow[x%len(grow)]
		x /= len(grow)
		sh = shrink[x%len(shrink)]
		x /= len(shrink)
		return g, sh, grow[x], t
	}
	return &core.Enum{Name: name, N: int64(n),
		Show: func(i int64) string {
			g, sh, g2, t := dec(i)
			return fmt.Sprintf("grow to %d by %v, shrink to 0 by %v (twice), grow by %v", t, g, sh, g2)
		},
		Run: func(w *core.Worker, i int64) (int64, error) {
			g, sh, g2, t := dec(i)
			s := newDeque()
			ops := 0
			doGrow := func(p []int, t int) error {
				for k := 0; len(s.m) < t; k++ {
					ops++
					n := len(s.m)
					var o uint32
					switch p[k%len(p)] {
					case 0:
						o = op(dPB, 0, 0)
					case 1:
						o = op(dPF, 0, 0)
					case 2:
						o = op(dIns, n/2, 0)
					case 3:
						o = op(dIns, n/3, 0)
					case 4:
						o = op(dIns, n-n/4, 0)
					case 5:
						o = op(dIns, (k*37)%(n+1), 0)
					}
					if err := s.Do(o); err != nil {
						return errf("size %d %s: %w", n, s.Name(o), err)
					}
					if err := s.spot(k); err != nil {
						return errf("after %s at size %d: %w", s.Name(o), n, err)
					}
				}
				return s.Check()
			}
			doShrink := func(p []int, t int) error {
				for k := 0; len(s.m) > t; k++ {
					ops++
					n := len(s.m)
					var o uint32
					switch p[k%len(p)] {
					case 0:
						o = op(dPopF, 0, 0)
					case 1:
						o = op(dPopB, 0, 0)
					case 2:
						o = op(dErase, n/3, 0)
					case 3:
						o = op(dErase, n-1-n/3, 0)
					case 4:
						o = op(dEraseRange, n/4, n/4+(n+5)/6)
					case 5:
						o = op(dErase, (k*41)%n, 0)
					case 6:
						o = op(dEraseRange, n-(n+4)/5, n)
					}
					if err := s.Do(o); err != nil {
						return errf("size %d %s: %w", n, s.Name(o), err)
					}
					if err := s.spot(k); err != nil {
						return errf("after %s at size %d: %w", s.Name(o), n, err)
					}
				}
				return s.Check()
			}
			err := func() error {
				for r := 0; r < 2; r++ {
					if err := first(doGrow(g, t), doShrink(sh, t/2), doGrow(g2, t-t/5), doShrink(sh, 0), doGrow(g2, t/3), doShrink(sh, t/7)); err != nil {
						return err
					}
				}
				return nil
			}()
			return int64(ops), err
		}}
}

// spot compares a few positions.
func (s *dequeM) spot(k int) error {
	n := len(s.m)
	if n == 0 {
		return want("Empty()", s.d.Empty(), true)
	}
	if err := first(want("Front()", s.d.Front(), s.m[0]), want("Back()", s.d.Back(), s.m[n-1])); err != nil {
		return err
	}
	for _, i := range [...]int{n / 2, n / 3, (k * 13) % n, (k*29 + 7) % n} {
		if g := s.d.At(i); g != s.m[i] {
			return errf("At(%d) = %v, want %v", i, g, s.m[i])
		}
	}
	if k%97 == 0 {
		return s.Check()
	}
	return nil
}

func init() {
	builders["P01"] = func(c Ctx) []any {
		switch c.Variant {
		case "seg3", "seg4":
			lim := c.Pick(9, 12)
			if c.Variant == "seg4" {
				lim = c.Pick(10, 13)
			}
			return []any{
				&core.Spec{Name: "deque all histories, " + c.Variant, Roots: 1, Depth: c.Pick(11, 13), Max: c.Pick(3000000, 16000000),
					Root: func(int) core.Machine { s := newDeque(); s.limit = lim; return s }},
				&core.Spec{Name: "deque large starts, " + c.Variant, Roots: 40, Depth: c.Pick(2, 3), Max: c.Pick(4000000, 20000000),
					Root: func(r int) core.Machine {
						s := newDeque()
						f, b := (r%8)*3, (r/8)*5
						for i := 0; i < f; i++ {
							s.Do(op(dPF, 0, 0))
						}
						for i := 0; i < b; i++ {
							s.Do(op(dPB, 0, 0))
						}
						s.limit = 64
						return s
					}},
				dequePattern("deque periodic histories, "+c.Variant, []int{5, 17, 40}),
			}
		}
		roots := dequeRoots(c)
		return []any{
			&core.Spec{Name: "deque small histories", Roots: 1, Depth: c.Pick(6, 8), Max: c.Pick(60000, 1000000),
				Root: func(int) core.Machine { s := newDeque(); s.limit = 6; return s }},
			&core.Spec{Name: "deque around segment boundaries", Roots: len(roots), Depth: 1,
				Root: func(r int) core.Machine { s := bigDeque(roots[r]); s.full1 = true; return s }},
			&core.Spec{Name: "deque pairs of operations around segment boundaries", Roots: len(roots), Depth: 2, Max: c.Pick(1000000, 3000000),
				Root: func(r int) core.Machine { return bigDeque(roots[r]) }},
			dequePattern("deque periodic histories", []int{130, 700, 1500}),
		}
	}
}
