package props

import (
	"fmt"
	"slices"

	"github.com/liyue201/gostl/algorithm/sort"
	"verifmc/core"
)

// The order of the elements is not fixed beforehand: each comparison is answered so that the algorithm learns as little as
// possible from it (McIlroy's killer adversary). So algorithms that choose pivots are driven into their worst case, whatever
// pivots they choose, and the answers still are those of one strict order.

type adversary struct {
	rank  []int // of the element with that identity; undecided ones are above all decided ones
	next  int
	cand  int
	first bool // of two undecided ones decide the first, not the last candidate
	down  bool // the order turned round
}

func newAdversary(n, variant int) *adversary {
	a := &adversary{rank: make([]int, n), cand: -1, first: variant&1 == 1, down: variant&2 == 2}
	for i := range a.rank {
		a.rank[i] = n
	}
	return a
}

func (a *adversary) cmp(x, y el) int {
	i, j, n := x.id, y.id, len(a.rank)
	if i == j {
		return 0
	}
	if a.rank[i] == n && a.rank[j] == n {
		k := i
		if j == a.cand && !a.first || i != a.cand && a.first {
			k = j
		}
		a.rank[k] = a.next
		a.next++
	}
	if a.rank[i] == n {
		a.cand = i
	} else if a.rank[j] == n {
		a.cand = j
	}
	r := 1
	if a.rank[i] < a.rank[j] {
		r = -1
	}
	if a.down {
		r = -r
	}
	return r
}

// settle decides what is undecided, against the order got has: nothing the algorithm asked decides it.
func (a *adversary) settle(got []el) {
	g := slices.Clone(got)
	if !a.down {
		slices.Reverse(g)
	}
	for _, e := range g {
		if a.rank[e.id] == len(a.rank) {
			a.rank[e.id] = a.next
			a.next++
		}
	}
}

func advSizes(c Ctx) []int {
	var s []int
	for n := 0; n <= c.Pick(80, 300); n++ {
		s = append(s, n)
	}
	s = append(s, 97, 127, 128, 129, 200, 255, 256, 257, 300, 400, 513)
	if c.Thorough() {
		s = append(s, 700, 1000, 1025, 2000, 3000)
	}
	return s
}

func init() {
	extend("P24", func(c Ctx) []any {
		sz := advSizes(c)
		return []any{&core.Enum{Name: "orders chosen by an adversary while sorting", N: int64(len(sz) * raKinds * 4 * 2),
			Show: func(i int64) string {
				return fmt.Sprintf("%d elements, container %d, adversary %d, algorithm %d", sz[i/(raKinds*8)], i%raKinds, i/raKinds%4, i/(raKinds*4)%2)
			},
			Run: func(w *core.Worker, i int64) (int64, error) {
				n := sz[i/(raKinds*8)]
				e := els(make([]byte, n))
				a := newAdversary(n, int(i/raKinds%4))
				ct := mkRA(int(i%raKinds), e)
				f, name := sort.Sort[el], "Sort"
				if i/(raKinds*4)%2 == 1 {
					f, name = sort.Stable[el], "Stable"
				}
				cnt := 0
				f(ct.at(0), ct.at(n), func(x, y el) int {
					if cnt++; cnt&0xfff == 0 {
						w.Tick()
					}
					return a.cmp(x, y)
				})
				got := ct.read()
				if err := (seqCase{e: e, hi: n}).outside(got); err != nil {
					return 1, errf("%s: %w", name, err)
				}
				a.settle(got)
				for j := 1; j < n; j++ {
					if a.cmp(got[j-1], got[j]) > 0 {
						return 1, errf("%s: positions %d and %d of %d are out of the order the comparisons were answered by", name, j-1, j, n)
					}
				}
				return int64(cnt), nil
			}}}
	})
	extend("P25", func(c Ctx) []any {
		sz := advSizes(c)
		return []any{&core.Enum{Name: "orders chosen by an adversary while selecting", N: int64(len(sz) * raKinds * 4),
			Show: func(i int64) string {
				return fmt.Sprintf("%d elements, container %d, adversary %d", sz[i/(raKinds*4)], i%raKinds, i/raKinds%4)
			},
			Run: func(w *core.Worker, i int64) (int64, error) {
				n := sz[i/(raKinds*4)]
				e := els(make([]byte, n))
				cnt := 0
				ks := []int{0, 1, n / 3, n / 2, n - 2, n - 1}
				if n < 20 {
					ks = ks[:0]
					for k := range n {
						ks = append(ks, k)
					}
				}
				for _, k := range ks {
					if k < 0 || k >= n {
						continue
					}
					a := newAdversary(n, int(i/raKinds%4))
					ct := mkRA(int(i%raKinds), e)
					sort.NthElement[el](ct.at(0), ct.at(n), k, func(x, y el) int {
						if cnt++; cnt&0xfff == 0 {
							w.Tick()
						}
						return a.cmp(x, y)
					})
					got := ct.read()
					if err := (seqCase{e: e, hi: n}).outside(got); err != nil {
						return 1, errf("NthElement(%d): %w", k, err)
					}
					a.settle(got)
					for j := range got {
						if x := a.cmp(got[j], got[k]); j < k && x > 0 || j > k && x < 0 {
							return 1, errf("NthElement(%d) of %d: the element at %d is on the wrong side in the order the comparisons were answered by", k, n, j)
						}
					}
				}
				return int64(cnt), nil
			}}}
	})
}
