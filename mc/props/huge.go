package props

import (
	"fmt"
	"math"

	"github.com/liyue201/gostl/ds/bitmap"
	bloom "github.com/liyue201/gostl/ds/bloomfilter"
	"verifmc/core"
)

// Bitmaps and filters whose positions do not fit into 32 bits: the memory behind them is touched at few places only.

func init() {
	sizes := []uint64{1<<31 - 3, 1 << 31, 1<<32 - 8, 1 << 32, 1<<32 + 9, 1<<33 + 17}
	extend("P18", func(c Ctx) []any {
		huge := &core.Enum{Name: "sizes beyond 2^31 and 2^32: every set of positions around powers of two, every step between them", N: int64(len(sizes)), Chunk: 1,
			Show: func(i int64) string { return fmt.Sprintf("size %d", sizes[i]) },
			Run: func(w *core.Worker, i int64) (int64, error) {
				b := bitmap.New(sizes[i])
				n := (sizes[i] + 7) / 8 * 8
				var pos []uint64
				for _, p := range []uint64{0, 7, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 7, 1 << 33, n - 1} {
					if p < n && (len(pos) == 0 || p > pos[len(pos)-1]) {
						pos = append(pos, p)
					}
				}
				ops := int64(0)
				set := 0
				look := func() error {
					for j, p := range pos {
						if b.IsSet(p) != (set>>j&1 == 1) {
							return errf("IsSet(%d) = %v with %b of the positions %d set", p, b.IsSet(p), set, pos)
						}
						// the positions next to it and the ones it could be mistaken for
						for _, q := range []uint64{p + 1, p - 1, p ^ 1<<31, p ^ 1<<32, p & math.MaxUint32, p & math.MaxInt32, p + n, p | 1<<63, p | 1<<40} {
							at := -1
							for k := range pos {
								if pos[k] == q {
									at = k
								}
							}
							if b.IsSet(q) != (at >= 0 && set>>at&1 == 1) {
								return errf("IsSet(%d) = %v with size %d and %b of the positions %d set", q, b.IsSet(q), n, set, pos)
							}
						}
					}
					return want("Size()", b.Size(), n)
				}
				if err := look(); err != nil {
					return 0, err
				}
				for g := 1; g <= 1<<len(pos); g++ { // along a Gray code
					if g < 1<<len(pos) {
						next := g ^ g>>1
						j := 0
						for (set^next)>>j&1 == 0 {
							j++
						}
						set = next
						f := b.Set
						if set>>j&1 == 0 {
							f = b.Unset
						}
						if !f(pos[j]) {
							return ops, errf("a change at position %d of %d is refused", pos[j], n)
						}
						ops++
					}
					// every step that changes nothing
					for j, p := range pos {
						f := b.Set
						if set>>j&1 == 0 {
							f = b.Unset
						}
						if !f(p) {
							return ops, errf("a change at position %d of %d is refused", p, n)
						}
						ops++
					}
					for _, p := range []uint64{n, n + 1, n + 1<<32, 1<<63 + 7, math.MaxUint64} {
						if b.Set(p) || b.Unset(p) {
							return ops, errf("a change at position %d of %d is accepted", p, n)
						}
						ops += 2
					}
					if err := look(); err != nil {
						return ops, err
					}
				}
				// a view of the same bits, then a smaller one and a large one again
				b = bitmap.NewFromData(b.Data())
				if err := look(); err != nil {
					return ops, errf("created from the data: %w", err)
				}
				for j, p := range pos {
					b.Set(p)
					set |= 1 << j
				}
				b.Resize(13)
				keep := b.IsSet(0) && b.IsSet(7) && !b.IsSet(8) && !b.IsSet(1<<16) && !b.IsSet(n-1) && b.Size() == 16
				if !keep {
					return ops, errf("resized from %d to 13: size %d, positions 0, 7, 8 are %v %v %v", n, b.Size(), b.IsSet(0), b.IsSet(7), b.IsSet(8))
				}
				b.Resize(sizes[i])
				set = 0
				for j, p := range pos {
					if p < 16 {
						set |= 1 << j
					}
				}
				if err := look(); err != nil {
					return ops, errf("resized back from 13: %w", err)
				}
				return ops + 3, nil
			}}
		return []any{huge}
	})
	extend("P19", func(c Ctx) []any {
		ks := []uint64{1, 8, 11}
		sizes := []uint64{1 << 31, 1<<32 + 9, 1<<33 + 17}
		huge := &core.Enum{Name: "filters of more than 2^31 and 2^32 bits", N: int64(len(sizes) * len(ks)), Chunk: 1,
			Show: func(i int64) string { return fmt.Sprintf("m %d, k %d", sizes[i/int64(len(ks))], ks[i%int64(len(ks))]) },
			Run: func(w *core.Worker, i int64) (int64, error) {
				f := bloom.New(sizes[i/int64(len(ks))], ks[i%int64(len(ks))], bloomOpts(i&1 == 1)...)
				n := c.Pick(200, 2000)
				v := func(j int) string { return fmt.Sprint("value ", j) }
				for j := 0; j < n; j++ {
					f.Add(v(j))
					for _, x := range []int{0, j / 2, j} {
						if !f.Contains(v(x)) {
							return int64(j), errf("%q was added and is not contained", v(x))
						}
					}
				}
				fp := 0
				for j := 0; j < n; j++ {
					if !f.Contains(v(j)) {
						return int64(n), errf("%q was added and is not contained", v(j))
					}
					if f.Contains(v(n + j)) {
						fp++
					}
				}
				// n*k bits of more than two thousand million are set
				if fp > 3 {
					return int64(n), errf("%d of %d values never added are contained", fp, n)
				}
				return int64(3 * n), nil
			}}
		return []any{huge}
	})
}
