package props

import (
	"fmt"
	"math"

	"github.com/liyue201/gostl/ds/bitmap"
	"verifmc/core"
	"verifmc/snap"
)

// bitM is a bitmap next to a slice of truth values.
type bitM struct {
	b   *bitmap.Bitmap
	m   []bool
	pos []uint64
	sz  []uint64
	log string
}

const (
	bSet = iota
	bUnset
	bResize
	bClear
	bImport
	bObs
)

func round8(n uint64) int { return int((n + 7) / 8 * 8) }

func newBit(size uint64, pos, sz []uint64) *bitM {
	return &bitM{b: bitmap.New(size), m: make([]bool, round8(size)), pos: pos, sz: sz}
}

func (s *bitM) Len() int { return len(s.m) }
func (s *bitM) Ops(o []uint32) []uint32 {
	for i := range s.pos {
		o = append(o, opw(bSet, i), opw(bUnset, i))
	}
	for i := range s.sz {
		o = append(o, opw(bResize, i))
	}
	return append(o, opw(bClear, 0), opw(bImport, 0), opw(bObs, 0))
}

func (s *bitM) Name(o uint32) string {
	k, a := unopw(o)
	switch k {
	case bSet:
		return fmt.Sprintf("Set(%d)", s.pos[a])
	case bUnset:
		return fmt.Sprintf("Unset(%d)", s.pos[a])
	case bResize:
		return fmt.Sprintf("Resize(%d)", s.sz[a])
	case bClear:
		return "Clear()"
	case bImport:
		return "NewFromData(Data())"
	}
	return "observe"
}

func (s *bitM) Do(o uint32) error {
	k, a := unopw(o)
	switch k {
	case bSet, bUnset:
		p := s.pos[a]
		in := p < uint64(len(s.m))
		f := s.b.Set
		if k == bUnset {
			f = s.b.Unset
		}
		if in {
			s.m[p] = k == bSet
		}
		return want(s.Name(o), f(p), in)
	case bResize:
		n := make([]bool, round8(s.sz[a]))
		copy(n, s.m)
		s.m = n
		s.b.Resize(s.sz[a])
	case bClear:
		clear(s.m)
		s.b.Clear()
	case bImport:
		s.b = bitmap.NewFromData(append([]byte(nil), s.b.Data()...))
	case bObs:
		return s.Check()
	}
	return nil
}

func (s *bitM) Check() error {
	if err := want("Size()", s.b.Size(), uint64(len(s.m))); err != nil {
		return err
	}
	for i, v := range s.m {
		if s.b.IsSet(uint64(i)) != v {
			return errf("IsSet(%d) = %v of %d, want %v", i, !v, len(s.m), v)
		}
	}
	n := uint64(len(s.m))
	for _, p := range []uint64{n, n + 1, n + 7, n + 8, n + 64, n + 1<<32, n + 1<<35, 1<<32 | n, math.MaxInt64, 1 << 63, 1<<63 + n, math.MaxUint64} {
		if s.b.IsSet(p) {
			return errf("IsSet(%d) with size %d", p, n)
		}
	}
	return nil
}

func (s *bitM) State(h *snap.Hasher) {
	h.Int(len(s.m))
	for i := range s.m {
		h.Int(btoi(s.m[i]))
	}
	h.Graph(s.b)
}

func init() {
	builders["P18"] = func(c Ctx) []any {
		pos := []uint64{0, 1, 2, 5, 6, 7, 8, 9, 10, 14, 15, 16, 17, 18, 22, 23, 24, 1 << 32, math.MaxUint64}
		sz := []uint64{0, 1, 7, 8, 9, 16, 17, 24}
		if !c.Thorough() {
			pos = []uint64{0, 1, 6, 7, 8, 9, 14, 15, 16, 17, 22, 23, 24, 1 << 32, math.MaxUint64}
		}
		roots := []uint64{0, 1, 8, 9, 15, 16, 17, 20, 24}
		small := &core.Spec{Name: "all histories over positions around byte boundaries", Roots: len(roots), Depth: 60, Max: c.Pick(1000000, 6000000),
			Root: func(r int) core.Machine { return newBit(roots[r], pos, sz) }}
		// every position of one byte
		pos1 := []uint64{0, 1, 2, 3, 4, 5, 6, 7, 8}
		one := &core.Spec{Name: "all histories over all positions of one byte", Roots: 3, Depth: 60,
			Root: func(r int) core.Machine { return newBit(uint64(r)*4, pos1, []uint64{0, 8, 11, 16}) }}
		// word boundaries of a larger one
		posw := []uint64{0, 31, 32, 63, 64, 65, 127, 128, 191, 192}
		word := &core.Spec{Name: "all histories over positions around word boundaries", Roots: 4, Depth: 60, Max: c.Pick(300000, 2000000),
			Root: func(r int) core.Machine {
				return newBit([]uint64{64, 65, 128, 200}[r], posw, []uint64{60, 64, 72, 120, 136, 200})
			}}
		// sizes: every size up to a bound, every position set alone and unset alone
		top := c.Pick(400, 1100)
		each := &core.Enum{Name: fmt.Sprintf("every size up to %d: each position set and unset alone, resized to neighbouring sizes", top), N: int64(top) + 1, Chunk: 1,
			Show: func(i int64) string { return fmt.Sprintf("size %d", i) },
			Run: func(w *core.Worker, i int64) (int64, error) {
				n := round8(uint64(i))
				ops := int64(0)
				s := newBit(uint64(i), nil, nil)
				full := newBit(uint64(i), nil, nil)
				if err := first(s.Check(), full.Check()); err != nil {
					return ops, err
				}
				for p := 0; p < n; p++ {
					full.pos = []uint64{uint64(p)}
					if err := full.Do(opw(bSet, 0)); err != nil {
						return ops, err
					}
				}
				if err := full.Check(); err != nil {
					return ops, errf("all %d set: %w", n, err)
				}
				for p := 0; p < n; p++ {
					for k, m := range []*bitM{s, full} {
						m.pos = []uint64{uint64(p)}
						for j := 0; j < 2; j++ {
							ops++
							if err := m.Do(opw(bSet+(k+j)&1, 0)); err != nil {
								return ops, err
							}
							if err := m.Check(); err != nil {
								return ops, errf("after %s: %w", m.Name(opw(bSet+(k+j)&1, 0)), err)
							}
						}
					}
				}
				for _, z := range []int{n - 17, n - 9, n - 8, n - 1, n, n + 1, n + 8, n + 65, 1, 0, n} {
					if z < 0 {
						continue
					}
					full.sz = []uint64{uint64(z)}
					full.Do(opw(bResize, 0))
					ops++
					if err := full.Check(); err != nil {
						return ops, errf("all set, resized down to %d: %w", z, err)
					}
					for p := range full.m {
						full.pos = []uint64{uint64(p)}
						full.Do(opw(bSet, 0))
					}
					if err := full.Do(opw(bImport, 0)); err != nil {
						return ops, err
					}
					if err := full.Check(); err != nil {
						return ops, errf("all set again and imported at %d: %w", z, err)
					}
				}
				return ops, nil
			}}
		bigs := []uint64{4096, 65535, 65536, 65537, 1<<18 + 3, uint64(c.Pick(1<<19, 1<<22))}
		large := &core.Enum{Name: "large sizes: stripes set, unset, resized, cleared", N: int64(len(bigs)) * 6, Chunk: 1,
			Show: func(i int64) string {
				return fmt.Sprintf("size %d, stripe %d", bigs[i/6], []int{1, 3, 8, 63, 64, 4097}[i%6])
			},
			Run: func(w *core.Worker, i int64) (int64, error) {
				n, st := bigs[i/6], []uint64{1, 3, 8, 63, 64, 4097}[i%6]
				s := newBit(n, []uint64{0}, []uint64{n / 2, n * 2, n})
				ops := int64(0)
				sweep := func(k int, from, step uint64) error {
					for p := from; p < uint64(len(s.m)); p += step {
						s.pos[0] = p
						ops++
						if err := s.Do(opw(k, 0)); err != nil {
							return err
						}
					}
					w.Tick()
					return s.Check()
				}
				err := first(sweep(bSet, 0, st), sweep(bUnset, 0, 2*st), s.Do(opw(bImport, 0)), s.Check(),
					s.Do(opw(bResize, 0)), s.Check(), sweep(bSet, 1, st), s.Do(opw(bResize, 1)), s.Check(), s.Do(opw(bClear, 0)), s.Check(), sweep(bSet, 0, st+1), s.Do(opw(bResize, 2)), s.Check())
				return ops, err
			}}
		return []any{small, one, word, each, large}
	}
}
