package props

import (
	"bytes"
	"fmt"
	"math"
	"sync"

	bloom "github.com/liyue201/gostl/ds/bloomfilter"
	"verifmc/core"
	"verifmc/snap"
)

var bloomVals = []string{"", "a", "b", "ab", "ba", "\x00", "key-1", "a longer value, longer than one block of the hash function, so that more than one block has to be processed for it: 0123456789abcdef0123456789abcdef"}

// bloomM is a filter, the filters exported from it or it came from, and the sets of values added to each.
type bloomM struct {
	f    []*bloom.BloomFilter
	has  []map[int]bool
	max  int
	vals int
	ask  []string // queries
	base []uint64 // answers to the queries expected not to change
	safe bool
}

func bloomOpts(safe bool) []bloom.Option {
	if safe {
		return []bloom.Option{bloom.WithGoroutineSafe()}
	}
	return nil
}

func newBloom(m, k uint64, safe bool, vals, most int) *bloomM {
	s := &bloomM{f: []*bloom.BloomFilter{bloom.New(m, k, bloomOpts(safe)...)}, has: []map[int]bool{{}}, max: most, vals: vals, safe: safe}
	s.ask = append(s.ask, bloomVals...)
	for i := 0; i < 18; i++ {
		s.ask = append(s.ask, fmt.Sprint("query", i))
	}
	return s
}

// answers to all queries as a bit set
func (s *bloomM) answers(f *bloom.BloomFilter) (x uint64) {
	for i, q := range s.ask {
		if f.Contains(q) {
			x |= 1 << i
		}
	}
	return x
}

func (s *bloomM) Ops(o []uint32) []uint32 {
	for i := range s.f {
		for v := 0; v < s.vals; v++ {
			o = append(o, op(0, i, v))
		}
		if len(s.f) < s.max {
			o = append(o, op(1, i, 0))
		}
	}
	return append(o, op(2, 0, 0))
}

func (s *bloomM) Name(o uint32) string {
	k, a, b := unop(o)
	switch k {
	case 0:
		return fmt.Sprintf("filter %d Add(%.20q)", a, bloomVals[b])
	case 1:
		return fmt.Sprintf("NewFromData(Data() of filter %d)", a)
	}
	return "observe"
}

func (s *bloomM) Do(o uint32) error {
	k, a, b := unop(o)
	if k == 2 {
		return s.Check()
	}
	before := make([]uint64, len(s.f))
	for i, f := range s.f {
		before[i] = s.answers(f)
	}
	changed := -1
	if k == 0 {
		s.f[a].Add(bloomVals[b])
		s.has[a][b] = true
		changed = a
	} else {
		data := s.f[a].Data()
		n := bloom.NewFromData(data, bloomOpts(s.safe)...)
		if x, y := s.answers(n), before[a]; x != y {
			return errf("the filter created from exported data answers the queries with %b, the exported one with %b", x, y)
		}
		// the export is the caller's
		for i := range data {
			data[i] = ^data[i]
		}
		if x, y := s.answers(n), before[a]; x != y {
			return errf("a filter created from exported data changes when the caller changes that data")
		}
		if x, y := s.answers(s.f[a]), before[a]; x != y {
			return errf("changing the exported data changes the filter")
		}
		data = s.f[a].Data()
		n = bloom.NewFromData(data, bloomOpts(s.safe)...)
		twin := bloom.NewFromData(data, bloomOpts(s.safe)...)
		for _, v := range s.ask {
			twin.Add(v)
		}
		h := map[int]bool{}
		for v := range s.has[a] {
			h[v] = true
		}
		s.f, s.has = append(s.f, n), append(s.has, h)
	}
	for i := range before {
		x := s.answers(s.f[i])
		if i != changed && x != before[i] {
			return errf("%s changes filter %d: answers %b, before %b", s.Name(o), i, x, before[i])
		}
		if before[i]&^x != 0 {
			return errf("%s makes filter %d forget something it contained", s.Name(o), i)
		}
	}
	return nil
}

func (s *bloomM) Check() error {
	for i, f := range s.f {
		for v := range s.has[i] {
			if !f.Contains(bloomVals[v]) {
				return errf("filter %d does not contain %q, which was added", i, bloomVals[v])
			}
		}
		if len(s.has[i]) == 0 {
			if x := s.answers(f); x != 0 {
				return errf("filter %d contains something though nothing was added", i)
			}
		}
	}
	return nil
}

func (s *bloomM) State(h *snap.Hasher) {
	for i := range s.f {
		for v := 0; v < s.vals; v++ {
			h.Int(btoi(s.has[i][v]))
		}
		h.Graph(s.f[i])
	}
}

// falsePositives adds n values and counts how many of q others are contained.
func falsePositives(mk func() *bloom.BloomFilter, n, q int, tick func()) (fp int, err error) {
	f := mk()
	val := func(i int) string { return fmt.Sprintf("member-%d", i) }
	for i := 0; i < n; i++ {
		f.Add(val(i))
	}
	for i := 0; i < n; i++ {
		if !f.Contains(val(i)) {
			return 0, errf("value %q was added and is not contained", val(i))
		}
	}
	tick()
	if q < 50000 {
		for i := 0; i < q; i++ {
			if f.Contains(fmt.Sprintf("other-%d", i)) {
				fp++
			}
		}
		return fp, nil
	}
	var wg sync.WaitGroup
	cnt := make([]int, 8)
	data := f.Data()
	for t := range cnt {
		wg.Add(1)
		g := bloom.NewFromData(data)
		go func() {
			defer wg.Done()
			for i := t; i < q; i += len(cnt) {
				if g.Contains(fmt.Sprintf("other-%d", i)) {
					cnt[t]++
				}
				if i/len(cnt)%5000 == 0 && t == 0 {
					tick()
				}
			}
		}()
	}
	wg.Wait()
	for _, c := range cnt {
		fp += c
	}
	return fp, nil
}

func init() {
	builders["P19"] = func(c Ctx) []any {
		type mk struct{ m, k uint64 }
		var grid []mk
		for _, m := range []uint64{1, 2, 8, 9, 64, 65, 1000} {
			for _, k := range []uint64{1, 3, 8, 9, 17} {
				grid = append(grid, mk{m, k})
			}
		}
		hist := &core.Spec{Name: "all histories of adds and exports, grid of sizes and numbers of hash functions", Roots: 2 * len(grid), Depth: c.Pick(4, 7), Max: c.Pick(150000, 2500000),
			Root: func(r int) core.Machine {
				g := grid[r/2]
				return newBloom(g.m, g.k, r&1 == 1, c.Pick(3, 4), c.Pick(2, 3))
			}}
		M, K := c.Pick(130, 700), c.Pick(20, 40)
		every := &core.Enum{Name: fmt.Sprintf("every number of bits up to %d and of hash functions up to %d", M, K), N: int64(M) * int64(K),
			Show: func(i int64) string { return fmt.Sprintf("m %d, k %d", i/int64(K)+1, i%int64(K)+1) },
			Run: func(w *core.Worker, i int64) (int64, error) {
				s := newBloom(uint64(i)/uint64(K)+1, uint64(i)%uint64(K)+1, i&1 == 0, 0, 3)
				if err := s.Check(); err != nil {
					return 0, err
				}
				for v := range bloomVals {
					if err := s.Do(op(0, 0, v)); err != nil {
						return 0, err
					}
					if err := s.Check(); err != nil {
						return 0, err
					}
				}
				err := first(s.Do(op(1, 0, 0)), s.Check())
				return int64(len(bloomVals)) + 1, err
			}}
		ns := []uint64{1, 2, 3, 5, 10, 33, 100, 1000, 4096, 10000, 100000, 1000000, 1 << 31, 1 << 33, 1e11}
		ps := []float64{0.9, 0.7, 0.5, 0.3, 0.1, 0.05, 0.02, 0.01, 0.005, 0.001, 1e-4, 1e-5, 1e-6, 1e-9, 1e-12}
		par := &core.Enum{Name: "parameters for numbers of values and tolerated rates", N: int64(len(ns) * len(ps)),
			Show: func(i int64) string { return fmt.Sprintf("n %d, p %v", ns[int(i)/len(ps)], ps[int(i)%len(ps)]) },
			Run: func(w *core.Worker, i int64) (int64, error) {
				n, p := ns[int(i)/len(ps)], ps[int(i)%len(ps)]
				m, k := bloom.EstimateParameters(n, p)
				x := -float64(n) * math.Log(p) / (math.Ln2 * math.Ln2)
				if d := float64(m) - x; d < -1e-9*x-1e-6 || d > 1+1e-9*x {
					return 1, errf("EstimateParameters(%d, %v) gives %d bits, optimal are %v", n, p, m, x)
				}
				y := math.Ln2 * float64(m) / float64(n)
				// rounded to the nearest number or up
				if d := float64(k) - y; k < 1 || d < -0.5001 || d > 1.0001 {
					return 1, errf("EstimateParameters(%d, %v) gives %d hash functions, optimal are %v", n, p, k, y)
				}
				if m > 1<<24 {
					return 1, nil
				}
				for _, safe := range []bool{false, true} {
					a, b := bloom.New(m, k, bloomOpts(safe)...), bloom.NewWithEstimates(n, p, bloomOpts(safe)...)
					for v := 0; v < 50; v++ {
						a.Add(fmt.Sprint("v", v))
						b.Add(fmt.Sprint("v", v))
					}
					if !bytes.Equal(a.Data(), b.Data()) {
						return 1, errf("NewWithEstimates(%d, %v) is not dimensioned with the estimated parameters %d, %d", n, p, m, k)
					}
				}
				return 3, nil
			}}
		fps := []float64{0.5, 0.2, 0.1, 0.05, 0.02, 0.01, 0.005, 0.004}
		fns := []int{1, 2, 5, 20, 100, 500, c.Pick(2000, 20000)}
		Q := c.Pick(20000, 200000)
		rate := &core.Enum{Name: fmt.Sprintf("false positives among %d queries", Q), N: int64(len(fps) * len(fns)), Chunk: 1,
			Show: func(i int64) string {
				return fmt.Sprintf("n %d, tolerated rate %v", fns[int(i)/len(fps)], fps[int(i)%len(fps)])
			},
			Run: func(w *core.Worker, i int64) (int64, error) {
				n, p := fns[int(i)/len(fps)], fps[int(i)%len(fps)]
				fp, err := falsePositives(func() *bloom.BloomFilter { return bloom.NewWithEstimates(uint64(n), p, bloomOpts(i&1 == 1)...) }, n, Q, w.Tick)
				if err != nil {
					return int64(Q), err
				}
				// small filters vary more: with few values the share of set bits is itself spread
				e := p * float64(Q)
				lim := 1.25*e + 6*math.Sqrt(e) + 4*e/math.Sqrt(float64(n))
				if float64(fp) > lim {
					return int64(Q), errf("%d of %d values never added are contained in a filter for %d values and an error rate of %v", fp, Q, n, p)
				}
				return int64(Q), nil
			}}
		Q2 := c.Pick(1000000, 3000000)
		deep := &core.Enum{Name: "false positives with more than eight hash functions", N: 1,
			Show: func(i int64) string { return "n 500, tolerated rate 1e-05" },
			Run: func(w *core.Worker, i int64) (int64, error) {
				n, p := 500, 1e-5
				m, k := bloom.EstimateParameters(uint64(n), p)
				fp, err := falsePositives(func() *bloom.BloomFilter { return bloom.NewWithEstimates(uint64(n), p) }, n, Q2, w.Tick)
				if err != nil {
					return int64(Q2), err
				}
				e := p * float64(Q2)
				if float64(fp) <= 1.25*e+6*math.Sqrt(e) {
					return int64(Q2), nil
				}
				// what eight hash functions can achieve with that many bits
				e8 := math.Pow(1-math.Exp(-8*float64(n)/float64(m)), 8) * float64(Q2)
				what := fmt.Sprintf("%d of %d values never added are contained in a filter for %d values and an error rate of %v (%d hash functions, tolerated are %.0f)", fp, Q2, n, p, k, e)
				if k > 8 && float64(fp) <= 1.25*e8+6*math.Sqrt(e8) {
					w.E.Finding("more-than-8-hash-functions", what)
					return int64(Q2), nil
				}
				return int64(Q2), errf("%s", what)
			}}
		return []any{hist, every, par, rate, deep}
	}
}
