package props

import (
	"fmt"
	"math/bits"
	"slices"
	"sync"

	"github.com/liyue201/gostl/algorithm/sort"
	"github.com/liyue201/gostl/ds/array"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/slice"
	"github.com/liyue201/gostl/ds/vector"
	"github.com/liyue201/gostl/utils/iterator"
	"verifmc/core"
)

// el is an element: a priority to order by and an identity.
type el struct{ p, id int }

func (e el) String() string { return fmt.Sprintf("%d#%d", e.p, e.id) }

type raIt = iterator.RandomAccessIterator[el]

// raC is a random access container with known contents.
type raC struct {
	name  string
	begin raIt
	end   raIt
	at    func(i int) raIt // an iterator at position i, made by the container
	read  func() []el
}

const raKinds = 4

func mkRA(kind int, e []el) raC {
	switch kind {
	case 0:
		s := slices.Clone(e)
		w := slice.NewSliceWrapper(s)
		return raC{"slice", w.Begin(), w.End(), func(i int) raIt { return w.Begin().IteratorAt(i) }, func() []el { return s }}
	case 1:
		v := vector.New[el]()
		for _, x := range e {
			v.PushBack(x)
		}
		return raC{"vector", v.Begin(), v.End(), func(i int) raIt { return v.IterAt(i) }, func() []el { return v.Data() }}
	case 2:
		a := array.New[el](len(e))
		for i, x := range e {
			a.Set(i, x)
		}
		return raC{"array", a.Begin(), a.End(), func(i int) raIt { return a.IterAt(i) }, func() []el { return a.Data() }}
	}
	// a deque whose contents were pushed at both ends
	d := deque.New[el]()
	h := len(e) / 3
	for i := h - 1; i >= 0; i-- {
		d.PushFront(e[i])
	}
	for _, x := range e[h:] {
		d.PushBack(x)
	}
	return raC{"deque", d.Begin(), d.End(), func(i int) raIt { return d.Begin().IteratorAt(i) }, func() []el {
		var o []el
		for i := 0; i < d.Size(); i++ {
			o = append(o, d.At(i))
		}
		return o
	}}
}

// elCmp: comparators that define an order: ascending, descending, results other than -1, 0, 1, classes only.
func elCmp(kind int, n *int) func(a, b el) int {
	return func(a, b el) int {
		*n++
		x, y := a.p, b.p
		switch kind {
		case 1:
			x, y = y, x
		case 3: // classes of two
			x, y = x>>1, y>>1
		}
		switch {
		case x < y:
			if kind == 2 {
				return -7 * (y - x)
			}
			return -1
		case x > y:
			if kind == 2 {
				return 1000 + x
			}
			return 1
		}
		return 0
	}
}

const elCmps = 4

// weak lists all weak orderings of n elements as words over 0..k-1 that use every letter.
var weakCache sync.Map

func weak(n int) [][]byte {
	if w, ok := weakCache.Load(n); ok {
		return w.([][]byte)
	}
	var out [][]byte
	w := make([]byte, n)
	var rec func(i int, used, top int)
	rec = func(i int, used, top int) {
		if i == n {
			if used == 1<<(top+1)-1 {
				out = append(out, slices.Clone(w))
			}
			return
		}
		// letters missing below the top have to fit in the rest
		for c := 0; c < n; c++ {
			t := max(top, c)
			u := used | 1<<c
			if t+1-bits.OnesCount(uint(u)) <= n-i-1 {
				w[i] = byte(c)
				rec(i+1, u, t)
			}
		}
	}
	rec(0, 0, -1)
	weakCache.Store(n, out)
	return out
}

func els(w []byte) []el {
	e := make([]el, len(w))
	for i, c := range w {
		e[i] = el{int(c), i}
	}
	return e
}

func word(i int64, base, n int) []byte {
	w := make([]byte, n)
	for j := range w {
		w[j] = byte(i % int64(base))
		i /= int64(base)
	}
	return w
}

// families of long sequences
var families = []string{"ascending", "descending", "equal", "organ pipe", "saw tooth", "two values", "ascending then small", "small then ascending", "interleaved", "median of three killer", "scattered", "scattered few values", "front large", "valley"}

func family(f, n int) []el {
	e := make([]el, n)
	x := uint32(n + 17)
	for i := range e {
		v := 0
		switch f {
		case 0:
			v = i
		case 1:
			v = n - i
		case 2:
			v = 5
		case 3:
			v = min(i, n-i)
		case 4:
			v = i % 7
		case 5:
			v = i * 3 / 2 & 1
		case 6:
			v = i
			if i > n-4 {
				v = 1
			}
		case 7:
			v = i
			if i < 3 {
				v = n - i
			}
		case 8:
			v = i&1*n + i
		case 9:
			if i&1 == 0 {
				v = i / 2
			} else {
				v = n/2 + i
			}
			if i >= n/2 {
				v = 2*(i-n/2) + 1
			}
		case 10:
			x = x*1664525 + 1013904223
			v = int(x >> 8)
		case 11:
			x = x*1664525 + 1013904223
			v = int(x >> 28)
		case 12:
			v = i
			if i == 0 {
				v = n + 1
			}
		case 13:
			v = max(i, n-i)
		}
		e[i] = el{v, i}
	}
	return e
}

func famSizes(c Ctx) []int {
	var s []int
	for n := 0; n <= c.Pick(70, 260); n++ {
		s = append(s, n)
	}
	return append(s, 100, 127, 128, 129, 130, 255, 256, 257, 300, 513, 1000, c.Pick(1500, 6000))
}

// seqCase is one input: a container, a comparator and a range in it.
type seqCase struct {
	e      []el
	kind   int
	cmp    int
	lo, hi int
}

func (s seqCase) String() string {
	x := s.e
	t := ""
	if len(x) > 24 {
		x, t = x[:24], fmt.Sprintf("... (%d)", len(s.e))
	}
	return fmt.Sprintf("%s%v%s, comparator %d, range [%d,%d)", mkRA(s.kind, nil).name, x, t, s.cmp, s.lo, s.hi)
}

// seqParts makes the enumerations the sorting checks share.
func seqParts(c Ctx, full, rot, bin int, run func(w *core.Worker, s seqCase) (int64, error)) []any {
	var parts []any
	mk := func(name string, n int64, get func(i int64) seqCase) {
		parts = append(parts, &core.Enum{Name: name, N: n, Show: func(i int64) string { return get(i).String() },
			Run: func(w *core.Worker, i int64) (int64, error) {
				s := get(i)
				return run(w, s)
			}})
	}
	// every weak ordering with every container, comparator and sub-range
	for n := 0; n <= full; n++ {
		ws := weak(n)
		type rg struct{ lo, hi int }
		var rs []rg
		for lo := 0; lo <= n; lo++ {
			for hi := lo; hi <= n; hi++ {
				rs = append(rs, rg{lo, hi})
			}
		}
		per := int64(raKinds * elCmps * len(rs))
		mk(fmt.Sprintf("all orders of %d elements with ties, every sub-range, container and comparator", n), int64(len(ws))*per, func(i int64) seqCase {
			k := i % per
			r := rs[k/(raKinds*elCmps)]
			return seqCase{els(ws[i/per]), int(k % raKinds), int(k / raKinds % elCmps), r.lo, r.hi}
		})
	}
	for n := full + 1; n <= rot; n++ {
		ws := weak(n)
		mk(fmt.Sprintf("all orders of %d elements with ties", n), int64(len(ws)), func(i int64) seqCase {
			return seqCase{els(ws[i]), int(i % raKinds), int(i / raKinds % 3), 0, n}
		})
	}
	for n := rot + 1; n <= bin; n++ {
		mk(fmt.Sprintf("all sequences of %d elements of two values", n), 1<<n, func(i int64) seqCase {
			return seqCase{els(word(i, 2, n)), int(i * 7 % raKinds), int(i % 3), 0, n}
		})
	}
	for n, p := rot+1, 1; n <= bin*5/8; n++ {
		p = 1
		for range n {
			p *= 3
		}
		mk(fmt.Sprintf("all sequences of %d elements of three values", n), int64(p), func(i int64) seqCase {
			return seqCase{els(word(i, 3, n)), int(i * 7 % raKinds), int(i % 3), 0, n}
		})
	}
	sz := famSizes(c)
	nf := len(families)
	mk("long sequences of several families", int64(len(sz)*nf*raKinds*3), func(i int64) seqCase {
		n := sz[i/int64(nf*raKinds*3)]
		f := int(i % int64(nf))
		k := int(i / int64(nf) % raKinds)
		s := seqCase{family(f, n), k, int(i % elCmps), 0, n}
		switch i / int64(nf*raKinds) % 3 {
		case 1:
			s.lo = n / 3
		case 2:
			s.hi = n - n/3
		}
		return s
	})
	return parts
}

// sameElems says whether got is want in any order, by identity.
func sameElems(got, want []el) bool {
	if len(got) != len(want) {
		return false
	}
	a, b := slices.Clone(got), slices.Clone(want)
	f := func(x, y el) int { return x.id - y.id }
	slices.SortFunc(a, f)
	slices.SortFunc(b, f)
	return slices.Equal(a, b)
}

func (s seqCase) outside(got []el) error {
	if len(got) != len(s.e) {
		return errf("the container now has %d elements", len(got))
	}
	if !slices.Equal(got[:s.lo], s.e[:s.lo]) || !slices.Equal(got[s.hi:], s.e[s.hi:]) {
		return errf("an element outside the range was changed: %v", got)
	}
	if !sameElems(got[s.lo:s.hi], s.e[s.lo:s.hi]) {
		return errf("the range no longer holds the same elements: %v", got)
	}
	return nil
}

func clip(e []el) []el { return e[:min(len(e), 40)] }

func init() {
	builders["P24"] = func(c Ctx) []any {
		run := func(w *core.Worker, s seqCase) (int64, error) {
			n := 0
			cmp := elCmp(s.cmp, &n)
			for alg := 0; alg < 2; alg++ {
				ct := mkRA(s.kind, s.e)
				name := "Sort"
				if alg == 0 {
					sort.Sort[el](ct.at(s.lo), ct.at(s.hi), cmp)
				} else {
					name = "Stable"
					sort.Stable[el](ct.at(s.lo), ct.at(s.hi), cmp)
				}
				got := ct.read()
				if err := s.outside(got); err != nil {
					return 1, errf("%s: %w", name, err)
				}
				for i := s.lo + 1; i < s.hi; i++ {
					x := cmp(got[i-1], got[i])
					if x > 0 {
						return 1, errf("%s: positions %d and %d are out of order: %v", name, i-1, i, clip(got))
					}
					if alg == 1 && x == 0 && got[i-1].id > got[i].id {
						return 1, errf("%s: equal elements at %d and %d have changed places: %v", name, i-1, i, clip(got))
					}
				}
			}
			return 2, nil
		}
		return seqParts(c, 6, c.Pick(8, 9), c.Pick(17, 20), run)
	}
	builders["P25"] = func(c Ctx) []any {
		run := func(w *core.Worker, s seqCase) (int64, error) {
			cnt := 0
			cmp := elCmp(s.cmp, &cnt)
			n := s.hi - s.lo
			sorted := slices.Clone(s.e[s.lo:s.hi])
			slices.SortStableFunc(sorted, cmp)
			ks := near(n+1, n/3)
			if n > 12 {
				ks = []int{0, 1, n / 3, n / 2, n - 2, n - 1, n, n + 1}
			}
			ks = append(ks, -1, n+5)
			for _, k := range ks {
				ct := mkRA(s.kind, s.e)
				sort.NthElement[el](ct.at(s.lo), ct.at(s.hi), k, cmp)
				got := ct.read()
				if k < 0 || k >= n {
					if !slices.Equal(got, s.e) {
						return 1, errf("NthElement(%d) of %d elements changed something: %v", k, n, clip(got))
					}
					continue
				}
				if err := s.outside(got); err != nil {
					return 1, errf("NthElement(%d): %w", k, err)
				}
				r := got[s.lo:s.hi]
				if cmp(r[k], sorted[k]) != 0 {
					return 1, errf("NthElement(%d): element %d of the range is %v, sorting would put %v there: %v", k, k, r[k], sorted[k], clip(r))
				}
				for i := range r {
					if x := cmp(r[i], r[k]); i < k && x > 0 || i > k && x < 0 {
						return 1, errf("NthElement(%d): element %d is on the wrong side: %v", k, i, clip(r))
					}
				}
			}
			return int64(len(ks)), nil
		}
		return seqParts(c, c.Pick(5, 6), c.Pick(8, 9), c.Pick(15, 18), run)
	}
	builders["P26"] = func(c Ctx) []any {
		run := func(w *core.Worker, s seqCase) (int64, error) {
			cnt := 0
			base := elCmp(s.cmp, &cnt)
			bad := error(nil)
			var val el
			in := s.e[s.lo:s.hi]
			cmp := func(a, b el) int {
				for _, x := range []el{a, b} {
					if x != val && (x.id < s.lo || x.id >= s.hi) && bad == nil {
						bad = errf("element %v outside of the range is looked at", x)
					}
				}
				return base(a, b)
			}
			n := s.hi - s.lo
			limit := 2*bits.Len(uint(n)) + 3
			ops := int64(0)
			ct := mkRA(s.kind, s.e)
			vals := []int{-1}
			last := -2
			for _, x := range s.e {
				if x.p != last {
					vals = append(vals, x.p, x.p+1, x.p-1)
					last = x.p
				}
			}
			if len(vals) > 200 { // long ranges: around the ends, the middle and a spread
				var v []int
				for i := range vals {
					if i < 12 || i >= len(vals)-12 || i%(len(vals)/60) == 0 || abs(i-len(vals)/2) < 6 {
						v = append(v, vals[i])
					}
				}
				vals = v
			}
			for _, p := range vals {
				val = el{p, -1}
				lo := 0
				for lo < n && base(in[lo], val) < 0 {
					lo++
				}
				hi := lo
				for hi < n && base(in[hi], val) <= 0 {
					hi++
				}
				f, l := ct.at(s.lo), ct.at(s.hi)
				chk := func(name string) error {
					ops++
					switch {
					case bad != nil:
						return errf("%s(%d): %w", name, p, bad)
					case cnt > limit:
						return errf("%s(%d) in %d elements: %d comparisons", name, p, n, cnt)
					case f.Position() != s.lo || l.Position() != s.hi || !f.Equal(ct.at(s.lo)) || !l.Equal(ct.at(s.hi)):
						return errf("%s(%d) moved the iterators passed to it", name, p)
					}
					return nil
				}
				cnt = 0
				r := sort.BinarySearch[el](f, l, val, cmp)
				if err := chk("BinarySearch"); err != nil {
					return ops, err
				}
				if r != (hi > lo) {
					return ops, errf("BinarySearch(%d) = %v", p, r)
				}
				cnt = 0
				it := sort.LowerBound[el](f, l, val, cmp)
				if err := chk("LowerBound"); err != nil {
					return ops, err
				}
				if it.Position() != s.lo+lo || !it.Equal(ct.at(s.lo+lo)) {
					return ops, errf("LowerBound(%d) is at %d, want %d", p, it.Position(), s.lo+lo)
				}
				it.Next() // the result is the caller's
				cnt = 0
				it = sort.UpperBound[el](f, l, val, cmp)
				if err := chk("UpperBound"); err != nil {
					return ops, err
				}
				if it.Position() != s.lo+hi || !it.Equal(ct.at(s.lo+hi)) {
					return ops, errf("UpperBound(%d) is at %d, want %d", p, it.Position(), s.lo+hi)
				}
				it.Prev()
				if f.Position() != s.lo || l.Position() != s.hi {
					return ops, errf("moving the results moves the iterators passed in")
				}
			}
			if !slices.Equal(ct.read(), s.e) {
				return ops, errf("the contents were changed")
			}
			return ops, nil
		}
		var parts []any
		mk := func(name string, n int64, get func(i int64) seqCase) {
			parts = append(parts, &core.Enum{Name: name, N: n, Show: func(i int64) string { return get(i).String() },
				Run: func(w *core.Worker, i int64) (int64, error) { return run(w, get(i)) }})
		}
		sortedSeq := func(cmp int, steps func(i int) int, n int) []el {
			e := make([]el, n)
			v := 0
			for i := range e {
				if i > 0 {
					v += steps(i)
				}
				e[i] = el{v, i}
			}
			if cmp == 1 {
				for i := range e {
					e[i].p = v - e[i].p
				}
			}
			return e
		}
		N := c.Pick(10, 12)
		for n := 0; n <= N; n++ {
			var rs [][2]int
			for lo := 0; lo <= n; lo++ {
				for hi := lo; hi <= n; hi++ {
					rs = append(rs, [2]int{lo, hi})
				}
			}
			pat := 1 << max(n-1, 0)
			per := int64(raKinds * elCmps * len(rs))
			mk(fmt.Sprintf("all sorted sequences of %d elements with ties, every sub-range, container and comparator", n), int64(pat)*per, func(i int64) seqCase {
				x, k := i/per, i%per
				cm := int(k / raKinds % elCmps)
				r := rs[k/(raKinds*elCmps)]
				return seqCase{sortedSeq(cm, func(i int) int { return 2 * int(x>>(i-1)&1) }, n), int(k % raKinds), cm, r[0], r[1]}
			})
		}
		sz := famSizes(c)
		steps := []func(i int) int{func(i int) int { return 2 }, func(i int) int { return 0 }, func(i int) int { return i & 1 * 2 }, func(i int) int { return btoi(i%37 == 0) * 2 }, func(i int) int { return btoi(i&(i-1) == 0) * 2 }, func(i int) int { return btoi(i == 1) * 2 }}
		mk("long sorted sequences", int64(len(sz)*len(steps)*raKinds*4), func(i int64) seqCase {
			n := sz[i/int64(len(steps)*raKinds*4)]
			cm := int(i % 2)
			s := seqCase{sortedSeq(cm, steps[i%int64(len(steps))], n), int(i / int64(len(steps)) % raKinds), cm, 0, n}
			switch i / int64(len(steps)*raKinds) % 4 {
			case 1:
				s.lo = n / 3
			case 2:
				s.hi = n - n/3
			case 3:
				s.lo, s.hi = n/4, n/2
			}
			return s
		})
		return parts
	}
	builders["P27"] = func(c Ctx) []any {
		run := func(w *core.Worker, s seqCase) (int64, error) {
			cnt := 0
			cmp := elCmp(s.cmp, &cnt)
			ct := mkRA(s.kind, s.e)
			// reference: the next greater arrangement by exhaustive reasoning on classes
			r := slices.Clone(s.e[s.lo:s.hi])
			ok := refNext(r, cmp)
			f, l := ct.at(s.lo), ct.at(s.hi)
			got := sort.NextPermutation[el](f, l, cmp)
			if got != ok {
				return 1, errf("NextPermutation = %v, want %v", got, ok)
			}
			now := ct.read()
			if err := s.outside(now); err != nil {
				return 1, err
			}
			if !ok {
				return 1, nil
			}
			for i, x := range now[s.lo:s.hi] {
				if cmp(x, r[i]) != 0 {
					return 1, errf("the arrangement becomes %v, the next one is %v", now[s.lo:s.hi], r)
				}
			}
			return 1, nil
		}
		parts := seqParts(c, 6, c.Pick(8, 9), 0, run)
		// chains: from the sorted arrangement through all of them
		var sets [][]byte
		top := c.Pick(8, 9)
		for n := 0; n <= top; n++ {
			for x := 0; x < 1<<max(n-1, 0); x++ {
				w := make([]byte, n)
				for i := 1; i < n; i++ {
					w[i] = w[i-1] + byte(x>>(i-1)&1)
				}
				sets = append(sets, w)
			}
		}
		parts = append(parts, &core.Enum{Name: fmt.Sprintf("chains through all arrangements of all multisets of up to %d elements", top), N: int64(len(sets) * 2), Chunk: 1,
			Show: func(i int64) string { return fmt.Sprint(sets[i/2], " comparator ", i%2) },
			Run: func(w *core.Worker, i int64) (int64, error) {
				cnt := 0
				cmp := elCmp(int(i%2), &cnt)
				e := els(sets[i/2])
				if i%2 == 1 {
					slices.Reverse(e)
				}
				ct := mkRA(int(i/2)%raKinds, e)
				total, f := 1, map[byte]int{}
				for j, x := range sets[i/2] {
					f[x]++
					total = total * (j + 1) / f[x]
				}
				prev := slices.Clone(ct.read())
				n := 1
				for sort.NextPermutation[el](ct.at(0), ct.at(len(e)), cmp) {
					now := ct.read()
					d := 0
					for j := range now {
						if d = cmp(prev[j], now[j]); d != 0 {
							break
						}
					}
					if d >= 0 || !sameElems(now, e) {
						return int64(n), errf("%v is followed by %v", prev, now)
					}
					prev = slices.Clone(now)
					n++
					if n > total {
						return int64(n), errf("more than the %d distinct arrangements", total)
					}
					if n&1023 == 0 {
						w.Tick()
					}
				}
				if n != total {
					return int64(n), errf("%d arrangements, there are %d", n, total)
				}
				return int64(n), nil
			}})
		return parts
	}
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

// refNext computes the next greater arrangement straight from the definition: the longest
// prefix that can be kept, then the smallest greater element from the rest, then the rest in order.
func refNext(r []el, cmp func(a, b el) int) bool {
	for keep := len(r) - 2; keep >= 0; keep-- {
		best := -1
		for j := keep + 1; j < len(r); j++ {
			if cmp(r[j], r[keep]) > 0 && (best < 0 || cmp(r[j], r[best]) < 0) {
				best = j
			}
		}
		if best >= 0 {
			r[keep], r[best] = r[best], r[keep]
			slices.SortStableFunc(r[keep+1:], cmp)
			return true
		}
	}
	return false
}
