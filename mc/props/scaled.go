package props

import (
	"fmt"
	"slices"
	"strconv"
	"strings"

	"github.com/liyue201/gostl/ds/deque"
	"verifmc/core"
)

// Scenarios for a deque that scale with the capacity of its segments. With the capacity as shipped they are part of P01. In the
// variants they tell whether the code still works after its capacity constant has been replaced, which it need not (a shift in
// the place of a division, say): if a scenario fails there that does not fail with the capacity as shipped, the variant is dropped.

var (
	scaledWays = []string{"all pushed back", "all pushed front", "pushed alternately", "half pushed back, half pushed front", "pushed back and drifted by as many", "pushed front and drifted by as many"}
	scaledOps  = []string{"Insert", "EraseAt", "EraseRange", "Set", "PopFront", "PopBack", "Clear"}
)

func scaledSizes(c int) []int {
	return []int{0, 1, 2, c - 1, c, c + 1, 2*c - 1, 2 * c, 2*c + 1, 3*c + c/2, 5 * c, 8*c + 1}
}

func scaledPlaces(c, n int) []int {
	ps := []int{0, 1, c - 1, c, c + 1, n / 2, n - c, n - 2, n - 1, n}
	slices.Sort(ps)
	return slices.Compact(slices.DeleteFunc(ps, func(p int) bool { return p < 0 || p > n }))
}

type scaledCase struct{ n, way, op, at int }

func scaledCases(c int) []scaledCase {
	var out []scaledCase
	for _, n := range scaledSizes(c) {
		for w := range scaledWays {
			for o := range scaledOps {
				for _, p := range scaledPlaces(c, n) {
					out = append(out, scaledCase{n, w, o, p})
				}
			}
		}
	}
	return out
}

func (s scaledCase) run(c int) error {
	d := deque.New[int]()
	var m []int
	next := 0
	back := func() { next++; d.PushBack(next); m = append(m, next) }
	front := func() { next++; d.PushFront(next); m = append([]int{next}, m...) }
	check := func(when string) error {
		if d.Size() != len(m) {
			return errf("%s: size %d, want %d", when, d.Size(), len(m))
		}
		for i, v := range m {
			if g := d.At(i); g != v {
				return errf("%s: element %d of %d is %d, want %d", when, i, len(m), g, v)
			}
		}
		if len(m) > 0 && (d.Front() != m[0] || d.Back() != m[len(m)-1]) {
			return errf("%s: front %d, back %d, want %d, %d", when, d.Front(), d.Back(), m[0], m[len(m)-1])
		}
		return nil
	}
	switch s.way {
	case 0, 4:
		for i := 0; i < s.n; i++ {
			back()
		}
	case 1, 5:
		for i := 0; i < s.n; i++ {
			front()
		}
	case 2:
		for i := 0; i < s.n; i++ {
			if i%2 == 0 {
				back()
			} else {
				front()
			}
		}
	case 3:
		for i := 0; i < s.n; i++ {
			if i < s.n/2 {
				back()
			} else {
				front()
			}
		}
	}
	for i := 0; i < s.n && s.way >= 4; i++ {
		if s.way == 4 {
			back()
			d.PopFront()
			m = m[1:]
		} else {
			front()
			d.PopBack()
			m = m[:len(m)-1]
		}
	}
	if err := check("built"); err != nil {
		return err
	}
	n := len(m)
	switch scaledOps[s.op] {
	case "Insert":
		next++
		d.Insert(s.at, next)
		m = insertAt(m, s.at, next)
	case "EraseAt":
		d.EraseAt(s.at)
		if s.at < n {
			m = slices.Delete(m, s.at, s.at+1)
		}
	case "EraseRange":
		to := min(s.at+c, n)
		d.EraseRange(s.at, to)
		m = slices.Delete(m, s.at, to)
	case "Set":
		next++
		d.Set(s.at, next)
		if s.at < n {
			m[s.at] = next
		}
	case "PopFront":
		for i := 0; i < s.at; i++ {
			if v := d.PopFront(); v != m[0] {
				return errf("PopFront() = %d, want %d", v, m[0])
			}
			m = m[1:]
		}
	case "PopBack":
		for i := 0; i < s.at; i++ {
			if v := d.PopBack(); v != m[len(m)-1] {
				return errf("PopBack() = %d, want %d", v, m[len(m)-1])
			}
			m = m[:len(m)-1]
		}
	case "Clear":
		d.Clear()
		m = nil
	}
	if err := check("after " + scaledOps[s.op]); err != nil {
		return err
	}
	for i := 0; i <= c; i++ {
		back()
		front()
	}
	if err := check("after more pushes"); err != nil {
		return err
	}
	for i := 0; len(m) > 0; i++ {
		if i%2 == 0 {
			if v := d.PopFront(); v != m[0] {
				return errf("at the end PopFront() = %d, want %d", v, m[0])
			}
			m = m[1:]
		} else {
			if v := d.PopBack(); v != m[len(m)-1] {
				return errf("at the end PopBack() = %d, want %d", v, m[len(m)-1])
			}
			m = m[:len(m)-1]
		}
	}
	return check("at the end")
}

func scaledEnum(c int) *core.Enum {
	cs := scaledCases(c)
	return &core.Enum{Name: "deque scenarios scaled to the segments", N: int64(len(cs)), Chunk: 4,
		Show: func(i int64) string {
			s := cs[i]
			return fmt.Sprintf("%d elements, %s, then %s at %d", s.n, scaledWays[s.way], scaledOps[s.op], s.at)
		},
		Run: func(w *core.Worker, i int64) (int64, error) { return int64(3 * c), cs[i].run(c) }}
}

// Calibrate says whether the code works in a build variant at all.
func Calibrate(variant string) error {
	c, err := strconv.Atoi(strings.TrimPrefix(variant, "seg"))
	if err != nil {
		return nil
	}
	for _, s := range scaledCases(c) {
		if err := core.Guard(func() error { return s.run(c) }); err != nil {
			return err
		}
	}
	return nil
}

func init() {
	extend("P01", func(c Ctx) []any {
		if c.Variant != "plain" {
			return nil
		}
		return []any{scaledEnum(128)}
	})
}
