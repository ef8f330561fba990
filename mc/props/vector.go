package props

import (
	"fmt"

	"github.com/liyue201/gostl/ds/array"
	"github.com/liyue201/gostl/ds/slice"
	"github.com/liyue201/gostl/ds/vector"
	"verifmc/core"
	"verifmc/snap"
)

const (
	vPB = iota + 1
	vPop
	vIns
	vInsIter
	vSet
	vErase
	vEraseIter
	vEraseRange
	vEraseRangeIter
	vReserve
	vShrink
	vResize
	vClear
	vObs
	vIterSet
)

type vectorM struct {
	v       *vector.Vector[Val]
	m       []Val
	next    Val
	limit   int
	big     bool
	reserve int  // capacity promised by Reserve and not given up since
	nocap   bool // P02 is about the capacity, this machine is not
}

func (s *vectorM) val() Val { s.next++; return s.next }

func (s *vectorM) Ops(o []uint32) []uint32 {
	n := len(s.m)
	pos := near(n)
	if n < s.limit {
		o = append(o, op(vPB, 0, 0))
		for _, i := range pos {
			o = append(o, op(vIns, i, 0), op(vInsIter, i, 0))
		}
	}
	o = append(o, op(vPop, 0, 0), op(vIns, -1, 0), op(vIns, n+1, 0), op(vSet, -1, 0), op(vSet, n, 0), op(vErase, -1, 0), op(vErase, n, 0),
		op(vEraseRange, 0, n+1), op(vEraseRange, -1, 1), op(vEraseRange, n, n), op(vEraseRange, n, 0), op(vEraseRange, (n+1)/2, (n+1)/2-1))
	for _, i := range pos {
		if i < n {
			o = append(o, op(vErase, i, 0), op(vEraseIter, i, 0), op(vSet, i, 0))
		}
		for _, j := range pos {
			if i <= j && j <= n {
				o = append(o, op(vEraseRange, i, j))
				if !s.big {
					o = append(o, op(vEraseRangeIter, i, j))
				}
			}
		}
		o = append(o, op(vResize, i, 0))
	}
	for _, c := range []int{0, 1, n, n + 1, n + 3, 2*n + 5} {
		o = append(o, op(vReserve, c, 0))
	}
	if n > 0 {
		o = append(o, op(vIterSet, n/2, 0))
	}
	return append(o, op(vShrink, 0, 0), op(vClear, 0, 0), op(vObs, 0, 0))
}

func (s *vectorM) Name(o uint32) string {
	k, a, b := unop(o)
	return fmt.Sprintf("%s(%d,%d)", [...]string{"", "PushBack", "PopBack", "InsertAt", "Insert(iter)", "SetAt", "EraseAt", "Erase(iter)", "EraseIndexRange", "EraseRange(iter)", "Reserve", "ShrinkToFit", "Resize", "Clear", "observe", "iter.SetValue"}[k], a, b)
}

func (s *vectorM) Do(o uint32) error {
	k, a, b := unop(o)
	n := len(s.m)
	switch k {
	case vPB:
		v := s.val()
		s.v.PushBack(v)
		s.m = append(s.m, v)
	case vPop:
		if n == 0 {
			return mustPanic("PopBack of an empty vector", func() { s.v.PopBack() })
		}
		e := s.m[n-1]
		s.m = s.m[:n-1]
		if err := want("PopBack()", s.v.PopBack(), e); err != nil {
			return err
		}
	case vIns:
		v := s.val()
		s.v.InsertAt(a, v)
		if a >= 0 && a <= n {
			s.m = insertAt(s.m, a, v)
		}
	case vInsIter:
		v := s.val()
		it := s.v.Insert(s.v.IterAt(a), v)
		s.m = insertAt(s.m, a, v)
		if !it.IsValid() || it.Value() != v || it.Position() != a {
			return errf("the iterator returned by Insert at %d does not designate the inserted value", a)
		}
	case vSet:
		v := s.val()
		s.v.SetAt(a, v)
		if a >= 0 && a < n {
			s.m[a] = v
		}
	case vIterSet:
		v := s.val()
		s.v.IterAt(a).SetValue(v)
		s.m[a] = v
	case vErase:
		s.v.EraseAt(a)
		if a >= 0 && a < n {
			s.m = eraseAt(s.m, a, a+1)
		}
	case vEraseIter:
		it := s.v.Erase(s.v.IterAt(a))
		s.m = eraseAt(s.m, a, a+1)
		if it.Position() != a || it.IsValid() != (a < len(s.m)) || (a < len(s.m) && it.Value() != s.m[a]) {
			return errf("the iterator returned by Erase at %d does not designate the value after the erased one", a)
		}
	case vEraseRange:
		s.v.EraseIndexRange(a, b)
		if a >= 0 && a <= b && b <= n {
			s.m = eraseAt(s.m, a, b)
		}
	case vEraseRangeIter:
		it := s.v.EraseRange(s.v.IterAt(a), s.v.IterAt(b))
		s.m = eraseAt(s.m, a, b)
		if it.Position() != a || it.IsValid() != (a < len(s.m)) || (a < len(s.m) && it.Value() != s.m[a]) {
			return errf("the iterator returned by EraseRange does not designate the value after the erased ones")
		}
	case vReserve:
		s.v.Reserve(a)
		if c := s.v.Capacity(); c < a {
			return errf("Capacity() = %d after Reserve(%d)", c, a)
		}
		s.reserve = max(s.reserve, a)
	case vShrink:
		s.v.ShrinkToFit()
		s.reserve = 0
		if c := s.v.Capacity(); c != n {
			return errf("Capacity() = %d after ShrinkToFit with %d elements", c, n)
		}
	case vResize:
		s.v.Resize(a)
		if a < n {
			s.m = s.m[:a]
		}
	case vClear:
		s.v.Clear()
		s.m = s.m[:0]
	case vObs:
		return s.Check()
	}
	return want("Size()", s.v.Size(), len(s.m))
}

func (s *vectorM) Check() error {
	n := len(s.m)
	if err := first(want("Size()", s.v.Size(), n), want("Empty()", s.v.Empty(), n == 0)); err != nil {
		return err
	}
	if c := s.v.Capacity(); c < n || c < s.reserve && !s.nocap {
		return errf("Capacity() = %d with %d elements and %d reserved", c, n, s.reserve)
	}
	d := s.v.Data()
	if len(d) != n {
		return errf("Data() has %d elements, want %d", len(d), n)
	}
	for i, v := range s.m {
		if g := s.v.At(i); g != v || d[i] != v {
			return errf("At(%d) = %v, Data()[%d] = %v, want %v", i, g, i, d[i], v)
		}
	}
	if n > 0 {
		if err := first(want("Front()", s.v.Front(), s.m[0]), want("Back()", s.v.Back(), s.m[n-1])); err != nil {
			return err
		}
	} else if err := first(mustPanic("Front() of an empty vector", func() { s.v.Front() }), mustPanic("Back() of an empty vector", func() { s.v.Back() })); err != nil {
		return err
	}
	if err := first(mustPanic("At(-1)", func() { s.v.At(-1) }), mustPanic("At(size)", func() { s.v.At(n) })); err != nil {
		return err
	}
	if n < 40 {
		if err := want("String()", s.v.String(), seqString(s.m)); err != nil {
			return err
		}
	}
	return checkRA[Val](s.m, s.v.Begin(), s.v.End(), s.v.First(), s.v.Last(), func(i int) raIter[Val] { return s.v.IterAt(i) })
}

func (s *vectorM) State(h *snap.Hasher) {
	h.Vals(s.m)
	h.Int(s.reserve)
	h.Graph(s.v)
}

// arrayM is a pair of arrays next to slices.
type arrayM struct {
	a    [3]*array.Array[Val]
	m    [3][]Val
	next Val
}

const (
	aSet = iota + 1
	aFill
	aSwap
	aIterSet
	aData
	aCopy
	aObs
)

func (s *arrayM) Ops(o []uint32) []uint32 {
	for k := 0; k < 3; k++ {
		n := len(s.m[k])
		for i := -1; i <= n; i++ {
			o = append(o, op(aSet, k, i))
			if i >= 0 && i < n {
				o = append(o, op(aIterSet, k, i))
			}
		}
		o = append(o, op(aFill, k, 0), op(aCopy, k, 0))
		if n > 0 {
			o = append(o, op(aData, k, n-1))
		}
		for j := 0; j < 3; j++ {
			o = append(o, op(aSwap, k, j))
		}
	}
	return append(o, op(aObs, 0, 0))
}
func (s *arrayM) Name(o uint32) string {
	k, a, b := unop(o)
	return fmt.Sprintf("%s(array %d,%d)", [...]string{"", "Set", "Fill", "SwapArray", "iter.SetValue", "write through Data", "replace by NewFromArray", "observe"}[k], a, b)
}
func (s *arrayM) Do(o uint32) error {
	k, a, b := unop(o)
	s.next++
	v := s.next
	switch k {
	case aSet:
		s.a[a].Set(b, v)
		if b >= 0 && b < len(s.m[a]) {
			s.m[a][b] = v
		}
	case aIterSet:
		s.a[a].IterAt(b).SetValue(v)
		s.m[a][b] = v
	case aData:
		s.a[a].Data()[b] = v
		s.m[a][b] = v
	case aFill:
		s.a[a].Fill(v)
		for i := range s.m[a] {
			s.m[a][i] = v
		}
	case aSwap:
		s.a[a].SwapArray(s.a[b])
		if len(s.m[a]) == len(s.m[b]) {
			s.m[a], s.m[b] = s.m[b], s.m[a]
		}
	case aCopy:
		s.a[a] = array.NewFromArray(s.a[a])
	case aObs:
		return s.Check()
	}
	return nil
}
func (s *arrayM) Check() error {
	for k, a := range s.a {
		m := s.m[k]
		n := len(m)
		if err := first(want("Size()", a.Size(), n), want("Empty()", a.Empty(), n == 0), want("len(Data())", len(a.Data()), n)); err != nil {
			return errf("array %d: %w", k, err)
		}
		for i, v := range m {
			if a.At(i) != v || a.Data()[i] != v {
				return errf("array %d: At(%d) = %v, want %v", k, i, a.At(i), v)
			}
		}
		if n > 0 {
			if err := first(want("Front()", a.Front(), m[0]), want("Back()", a.Back(), m[n-1])); err != nil {
				return errf("array %d: %w", k, err)
			}
		} else if err := first(mustPanic("Front()", func() { a.Front() }), mustPanic("Back()", func() { a.Back() })); err != nil {
			return err
		}
		if err := first(mustPanic("At(-1)", func() { a.At(-1) }), mustPanic("At(size)", func() { a.At(n) }), want("String()", a.String(), seqString(m))); err != nil {
			return err
		}
		if err := checkRA[Val](m, a.Begin(), a.End(), a.First(), a.Last(), func(i int) raIter[Val] { return a.IterAt(i) }); err != nil {
			return errf("array %d: %w", k, err)
		}
	}
	return nil
}
func (s *arrayM) State(h *snap.Hasher) {
	for k := range s.m {
		h.Vals(s.m[k])
	}
	h.Graph(&s.a)
}

// sliceM is a wrapper over one of several caller's slices.
type sliceM struct {
	w    *slice.SliceWrapper[Val]
	w2   *slice.SliceWrapper[Val] // another view of back[0]
	back [3][]Val
	m    [3][]Val
	cur  int
	next Val
}

const (
	sSet = iota + 1
	sOwn
	sIter
	sAttach
	sSet2
	sObs
)

func newSliceM(root int) *sliceM {
	s := &sliceM{}
	sz := [][3]int{{0, 1, 3}, {2, 2, 0}, {3, 1, 2}, {4, 3, 0}}[root]
	for k := range s.back {
		for i := 0; i < sz[k]; i++ {
			s.next++
			s.back[k] = append(s.back[k], s.next)
		}
		s.m[k] = append([]Val(nil), s.back[k]...)
	}
	s.w = slice.NewSliceWrapper(s.back[0])
	s.w2 = slice.NewSliceWrapper(s.back[0])
	return s
}
func (s *sliceM) Ops(o []uint32) []uint32 {
	n := len(s.m[s.cur])
	for i := -1; i <= n; i++ {
		o = append(o, op(sSet, i, 0))
		if i >= 0 && i < n {
			o = append(o, op(sIter, i, 0))
		}
	}
	for i := range s.m[0] {
		o = append(o, op(sSet2, i, 0))
	}
	for k := range s.back {
		o = append(o, op(sAttach, k, 0))
		if len(s.m[k]) > 0 {
			o = append(o, op(sOwn, k, len(s.m[k])-1))
		}
	}
	return append(o, op(sObs, 0, 0))
}
func (s *sliceM) Name(o uint32) string {
	k, a, b := unop(o)
	return fmt.Sprintf("%s(%d,%d)", [...]string{"", "Set", "write to the caller's slice", "iter.SetValue", "Attach", "Set through a second wrapper", "observe"}[k], a, b)
}
func (s *sliceM) Do(o uint32) error {
	k, a, b := unop(o)
	s.next++
	v := s.next
	m := s.m[s.cur]
	switch k {
	case sSet:
		s.w.Set(a, v)
		if a >= 0 && a < len(m) {
			m[a] = v
		}
	case sIter:
		it := s.w.Begin()
		for i := 0; i < a; i++ {
			it.Next()
		}
		it.SetValue(v)
		m[a] = v
	case sOwn:
		s.back[a][b] = v
		s.m[a][b] = v
	case sSet2:
		s.w2.Set(a, v)
		s.m[0][a] = v
	case sAttach:
		s.w.Attach(s.back[a])
		s.cur = a
	case sObs:
		return s.Check()
	}
	return nil
}
func (s *sliceM) Check() error {
	for k := range s.m {
		for i, v := range s.m[k] {
			if s.back[k][i] != v {
				return errf("caller's slice %d element %d = %v, want %v", k, i, s.back[k][i], v)
			}
		}
	}
	m := s.m[s.cur]
	n := len(m)
	if err := want("Len()", s.w.Len(), n); err != nil {
		return err
	}
	for i, v := range m {
		if g := s.w.At(i); g != v {
			return errf("At(%d) = %v, want %v", i, g, v)
		}
	}
	for i, v := range s.m[0] {
		if g := s.w2.At(i); g != v {
			return errf("second wrapper At(%d) = %v, want %v", i, g, v)
		}
	}
	if err := first(mustPanic("At(-1)", func() { s.w.At(-1) }), mustPanic("At(len)", func() { s.w.At(n) })); err != nil {
		return err
	}
	return checkRA[Val](m, s.w.Begin(), s.w.End(), s.w.First(), s.w.Last(), nil)
}
func (s *sliceM) State(h *snap.Hasher) {
	h.Int(s.cur)
	for k := range s.m {
		h.Vals(s.m[k])
		h.Vals(s.back[k])
	}
	h.Graph(s.w)
	h.Graph(s.w2)
}

// growPattern drives a random access sequence through long histories.
func vectorPatterns(c Ctx) *core.Enum {
	caps := []int{-1, 0, 1, 5, 100}
	tops := []int{1, 2, 3, 7, 8, 9, 15, 16, 17, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 513, 1025, 2049}
	pats := 6
	return &core.Enum{Name: "vector long histories", N: int64(len(caps) * len(tops) * pats * 3), Chunk: 1,
		Show: func(i int64) string { return fmt.Sprintf("periodic history %d", i) },
		Run: func(w *core.Worker, i int64) (int64, error) {
			x := int(i)
			cp := caps[x%len(caps)]
			x /= len(caps)
			top := tops[x%len(tops)]
			x /= len(tops)
			pat := x % pats
			mode := x / pats
			s := &vectorM{v: vector.New[Val]()}
			if cp >= 0 {
				s.v = vector.New[Val](vector.WithCapacity(cp))
				if s.v.Capacity() < cp {
					return 1, errf("Capacity() = %d after WithCapacity(%d)", s.v.Capacity(), cp)
				}
			}
			ops := int64(0)
			do := func(o uint32) error {
				ops++
				if err := s.Do(o); err != nil {
					return errf("%s at size %d: %w", s.Name(o), len(s.m), err)
				}
				n := len(s.m)
				if n <= 40 || n%64 <= 1 || ops%31 == 0 {
					if err := s.Check(); err != nil {
						return errf("after %s at size %d: %w", s.Name(o), n, err)
					}
				}
				return nil
			}
			for round := 0; round < 2; round++ {
				for k := 0; len(s.m) < top; k++ {
					n := len(s.m)
					o := op(vPB, 0, 0)
					switch (pat + k) % 3 {
					case 1:
						if pat >= 2 {
							o = op(vIns, n/2, 0)
						}
					case 2:
						if pat >= 3 {
							o = op(vInsIter, (k*7)%(n+1), 0)
						}
					}
					if err := do(o); err != nil {
						return ops, err
					}
					if mode == 1 && k%11 == 10 {
						if err := do(op(vShrink, 0, 0)); err != nil {
							return ops, err
						}
					}
					if mode == 2 && k%13 == 12 {
						if err := do(op(vReserve, n+17, 0)); err != nil {
							return ops, err
						}
					}
				}
				if err := s.Check(); err != nil {
					return ops, err
				}
				for k := 0; len(s.m) > 0; k++ {
					n := len(s.m)
					o := op(vPop, 0, 0)
					switch (pat + k) % 4 {
					case 1:
						o = op(vErase, n/3, 0)
					case 2:
						if pat >= 2 {
							o = op(vEraseRange, n/4, n/4+(n+7)/8)
						}
					case 3:
						if pat >= 3 {
							o = op(vEraseIter, (k*5)%n, 0)
						}
					}
					if err := do(o); err != nil {
						return ops, err
					}
				}
			}
			return ops, nil
		}}
}

func init() {
	builders["P02"] = func(c Ctx) []any {
		return []any{
			&core.Spec{Name: "vector all histories", Roots: 3, Depth: c.Pick(6, 8), Max: c.Pick(400000, 4000000),
				Root: func(r int) core.Machine {
					s := &vectorM{limit: c.Pick(4, 5)}
					switch r {
					case 0:
						s.v = vector.New[Val]()
					case 1:
						s.v = vector.New[Val](vector.WithCapacity(3))
					case 2:
						o := vector.New[Val](vector.WithCapacity(4))
						for i := 0; i < 3; i++ {
							v := s.val()
							o.PushBack(v)
							s.m = append(s.m, v)
						}
						s.v = vector.NewFromVector(o)
					}
					return s
				}},
			&core.Spec{Name: "vector large starts", Roots: 12, Depth: 2, Max: c.Pick(400000, 2000000),
				Root: func(r int) core.Machine {
					s := &vectorM{limit: 1 << 11, big: true, v: vector.New[Val]()}
					n := []int{15, 16, 17, 31, 32, 33, 64, 65, 127, 256, 512, 1025}[r]
					for i := 0; i < n; i++ {
						s.Do(op(vPB, 0, 0))
					}
					return s
				}},
			vectorPatterns(c),
		}
	}
	builders["P03"] = func(c Ctx) []any {
		sizes := [][3]int{{0, 0, 1}, {1, 1, 1}, {2, 2, 1}, {3, 3, 2}, {2, 0, 2}, {4, 4, 4}, {1, 5, 5}}
		return []any{
			&core.Spec{Name: "arrays", Roots: len(sizes), Depth: c.Pick(4, 6), Max: c.Pick(300000, 3000000),
				Root: func(r int) core.Machine {
					s := &arrayM{}
					for k := range s.a {
						s.a[k] = array.New[Val](sizes[r][k])
						s.m[k] = make([]Val, sizes[r][k])
					}
					return s
				}},
			&core.Spec{Name: "wrapped slices", Roots: 4, Depth: c.Pick(5, 7), Max: c.Pick(200000, 2000000),
				Root: func(r int) core.Machine { return newSliceM(r) }},
			&core.Enum{Name: "arrays and slices of every size", N: int64(c.Pick(1200, 4000)),
				Show: func(i int64) string { return fmt.Sprintf("size %d", i) },
				Run: func(w *core.Worker, i int64) (int64, error) {
					n := int(i)
					a, b := array.New[Val](n), array.New[Val](n)
					ma, mb := make([]Val, n), make([]Val, n)
					for k := range ma {
						ma[k], mb[k] = Val(k+1), Val(10000+k)
						a.Set(k, ma[k])
						b.IterAt(k).SetValue(mb[k])
					}
					eq := func(a *array.Array[Val], m []Val) error {
						if err := want("Size()", a.Size(), len(m)); err != nil {
							return err
						}
						for k, v := range m {
							if a.At(k) != v {
								return errf("At(%d) = %v, want %v", k, a.At(k), v)
							}
						}
						return checkRA[Val](m, a.Begin(), a.End(), a.First(), a.Last(), nil)
					}
					cp := array.NewFromArray(a)
					if err := first(eq(a, ma), eq(b, mb), eq(cp, ma)); err != nil {
						return 4, err
					}
					a.SwapArray(b)
					if err := first(eq(a, mb), eq(b, ma), eq(cp, ma)); err != nil {
						return 5, errf("after SwapArray: %w", err)
					}
					c := array.New[Val](n + 1)
					a.SwapArray(c)
					c.SwapArray(a)
					if err := first(eq(a, mb), eq(c, make([]Val, n+1))); err != nil {
						return 7, errf("after SwapArray of different sizes: %w", err)
					}
					a.Fill(7)
					for k := range mb {
						mb[k] = 7
					}
					wr := slice.NewSliceWrapper(ma)
					if err := first(eq(a, mb), eq(b, ma), want("Len()", wr.Len(), n)); err != nil {
						return 9, err
					}
					for k := n - 1; k >= 0; k-- {
						wr.Set(k, Val(k*3))
						if ma[k] != Val(k*3) || wr.At(k) != Val(k*3) {
							return 9, errf("wrapped slice element %d not written through", k)
						}
					}
					return 10, checkRA[Val](ma, wr.Begin(), wr.End(), wr.First(), wr.Last(), nil)
				}},
		}
	}
}
