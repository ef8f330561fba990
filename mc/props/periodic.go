package props

import (
	"fmt"

	"verifmc/core"
)

// pm is a machine whose size can be asked for.
type pm interface {
	core.Machine
	Len() int
}

// gen produces the operation to perform at step k in the current state.
type gen[M pm] struct {
	name string
	f    func(m M, k int) uint32
}

// words lists all words of length 1..L over an alphabet of n letters.
func words(n, L int) [][]int {
	var out [][]int
	var rec func(w []int)
	rec = func(w []int) {
		if len(w) > 0 {
			out = append(out, append([]int(nil), w...))
		}
		if len(w) == L {
			return
		}
		for i := 0; i < n; i++ {
			rec(append(w, i))
		}
	}
	rec(nil)
	return out
}

// periodic drives a machine through long histories: for all pairs of words
// over the generators, the first word is repeated until the size or the number
// of steps reaches a bound, then the second until the machine is empty or the
// bound is reached, then the first one again. It reaches the sizes that the
// exhaustive search from the empty object cannot, one periodic family after the other.
func periodic[M pm](name string, mk func() M, up, down []gen[M], lu, ld, top, steps, every int) *core.Enum {
	wu, wd := words(len(up), lu), words(len(down), ld)
	n := len(wu) * len(wd)
	show := func(i int64) string {
		u, d := wu[int(i)%len(wu)], wd[int(i)/len(wu)]
		s := "repeat"
		for _, x := range u {
			s += " " + up[x].name
		}
		s += fmt.Sprintf(" up to size %d, then repeat", top)
		for _, x := range d {
			s += " " + down[x].name
		}
		return s + ", then the first again"
	}
	return &core.Enum{Name: name, N: int64(n), Show: show,
		Run: func(w *core.Worker, i int64) (int64, error) {
			m := mk()
			ops := 0
			run := func(word []int, g []gen[M], stop func() bool, limit int) error {
				for k := 0; k < limit && !stop(); k++ {
					ops++
					o := g[word[k%len(word)]].f(m, k)
					n := m.Len()
					if err := m.Do(o); err != nil {
						return errf("operation %d, %s at size %d: %w", ops, m.Name(o), n, err)
					}
					if ops%every == 0 {
						w.Tick()
						if err := m.Check(); err != nil {
							return errf("after operation %d, %s at size %d: %w", ops, m.Name(o), n, err)
						}
					}
				}
				return m.Check()
			}
			u, d := wu[int(i)%len(wu)], wd[int(i)/len(wu)]
			err := first(run(u, up, func() bool { return m.Len() >= top }, steps),
				run(d, down, func() bool { return m.Len() == 0 }, steps),
				run(u, up, func() bool { return m.Len() >= top/3 }, steps/2))
			return int64(ops), err
		}}
}

// lives keeps a small container for a long time: for every pair of generators the first is performed once and
// the second until the size is what it was, so often that more than 2^16 elements have gone in and out.
func lives[M pm](name string, mk func() M, up, down []gen[M], size, rounds int) *core.Enum {
	n := len(up) * len(down)
	show := func(i int64) string {
		return fmt.Sprintf("%s up to size %d, then %d times %s and %s", up[int(i)%len(up)].name, size, rounds, up[int(i)%len(up)].name, down[int(i)/len(up)].name)
	}
	return &core.Enum{Name: name, N: int64(n), Show: show,
		Run: func(w *core.Worker, i int64) (int64, error) {
			m := mk()
			u, d := up[int(i)%len(up)], down[int(i)/len(up)]
			ops := 0
			do := func(g gen[M], k int) error {
				ops++
				o := g.f(m, k)
				n := m.Len()
				if err := m.Do(o); err != nil {
					return errf("operation %d, %s at size %d: %w", ops, m.Name(o), n, err)
				}
				if ops%1021 == 0 {
					w.Tick()
					if err := m.Check(); err != nil {
						return errf("after operation %d, %s at size %d: %w", ops, m.Name(o), n, err)
					}
				}
				return nil
			}
			for k := 0; m.Len() < size && k < 4*size; k++ {
				if err := do(u, k); err != nil {
					return int64(ops), err
				}
			}
			if m.Len() < size {
				return int64(ops), nil // does not grow
			}
			for k := 0; k < rounds; k++ {
				if err := do(u, k); err != nil {
					return int64(ops), err
				}
				for t := 0; t < 4 && m.Len() > size; t++ {
					if err := do(d, k+t); err != nil {
						return int64(ops), err
					}
				}
				if m.Len() > 4*size {
					break // does not shrink
				}
			}
			return int64(ops), m.Check()
		}}
}
