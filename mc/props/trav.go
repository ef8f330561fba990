package props

import (
	"fmt"
	"slices"
	"strings"

	"github.com/liyue201/gostl/ds/hamt"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	treemap "github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/rbtree"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/ds/skiplist"
	"verifmc/core"
)

// titem is what a traversal shows of one element.
type titem struct {
	k string
	v int
}

// travC is a container with a traversal.
type travC struct {
	name   string
	obj    any
	trav   func(f func(titem) bool)
	want   []titem // nil with free: any order
	free   bool    // the order is the container's own affair
	unhurt func(stop int) error
	// listings that have to match
	keys []func() []string
	str  func() string
}

const travKinds = 15

// mkTrav builds a container; see build.
func mkTrav(kind int, hist []int, keyText func(int) string) travC {
	c, step := buildTrav(kind, hist, keyText)
	// unhurt compares what the container does after every possible next step with one that was not traversed.
	c.unhurt = func(stop int) error {
		var next []int
		for _, h := range hist {
			next = append(next, h, -h-1)
		}
		for _, h := range append(next, 0, 1, 2, -1) {
			a, step := buildTrav(kind, hist, keyText)
			n := 0
			a.trav(func(titem) bool { n++; return n != stop })
			step(h, len(hist))
			b, _ := buildTrav(kind, append(slices.Clone(hist), h), keyText)
			var got []titem
			a.trav(func(t titem) bool { got = append(got, t); return len(got) <= len(b.want) })
			exp := slices.Clone(b.want)
			if a.free {
				less := func(x, y titem) int { return strings.Compare(x.k, y.k) }
				slices.SortFunc(got, less)
				slices.SortFunc(exp, less)
			}
			if !slices.Equal(got, exp) {
				return errf("%s: after a traversal stopped after %d visits and step %d the contents are %q, want %q", a.name, stop, h, got, exp)
			}
		}
		return nil
	}
	_ = step
	return c
}

// buildTrav builds a container from a history: non-negative entries insert the key, a
// negative entry -k-1 erases key k (lists: removes the front node).
func buildTrav(kind int, hist []int, keyText func(int) string) (travC, func(h, i int)) {
	asc := func(a, b int) int { return a - b }
	desc := func(a, b int) int { return b - a }
	type kv struct{ k, v int }
	var m []kv // in order
	ordered := func(cmp func(a, b int) int, multi, eraseAll bool) {
		for i, h := range hist {
			if h >= 0 {
				at := 0
				found := false
				for at < len(m) && cmp(m[at].k, h) <= 0 {
					if m[at].k == h && !multi {
						found = true
						break
					}
					at++
				}
				if found {
					m[at].v = i
				} else {
					m = slices.Insert(m, at, kv{h, i})
				}
			} else {
				h = -h - 1
				for at := 0; at < len(m); at++ {
					if m[at].k == h {
						m = slices.Delete(m, at, at+1)
						if !eraseAll {
							break
						}
						at--
					}
				}
			}
		}
	}
	items := func(withVal bool) []titem {
		out := []titem{}
		for _, x := range m {
			t := titem{k: keyText(x.k)}
			if withVal {
				t.v = x.v
			}
			out = append(out, t)
		}
		return out
	}
	var step func(h, i int)
	each := func(ins func(k, v int), del func(k int)) {
		step = func(h, i int) {
			if h >= 0 {
				ins(h, i)
			} else {
				del(-h - 1)
			}
		}
		for i, h := range hist {
			step(h, i)
		}
	}
	kvv := func(f func(titem) bool) func(int, int) bool {
		return func(k, v int) bool { return f(titem{keyText(k), v}) }
	}
	switch kind {
	case 0: // bidlist, mixed ends
		l := bidlist.New[int]()
		var o []int
		each(func(k, v int) {
			if v%3 == 1 {
				l.PushFront(k)
				o = slices.Insert(o, 0, k)
			} else {
				l.PushBack(k)
				o = append(o, k)
			}
		}, func(int) {
			if len(o) > 0 {
				l.PopFront()
				o = o[1:]
			}
		})
		c := travC{name: "bidlist", obj: l, trav: func(f func(titem) bool) { l.Traversal(func(x int) bool { return f(titem{k: keyText(x)}) }) }, str: l.String, want: []titem{}}
		for _, k := range o {
			c.want = append(c.want, titem{k: keyText(k)})
		}
		return c, step
	case 1:
		l := simplelist.New[int]()
		var o []int
		each(func(k, v int) {
			if v%3 == 1 {
				l.PushFront(k)
				o = slices.Insert(o, 0, k)
			} else {
				l.PushBack(k)
				o = append(o, k)
			}
		}, func(int) {
			if len(o) > 0 {
				l.Remove(nil, l.FrontNode())
				o = o[1:]
			}
		})
		c := travC{name: "simplelist", obj: l, trav: func(f func(titem) bool) { l.Traversal(func(x int) bool { return f(titem{k: keyText(x)}) }) }, str: l.String, want: []titem{}}
		for _, k := range o {
			c.want = append(c.want, titem{k: keyText(k)})
		}
		return c, step
	case 2, 3:
		cmp := asc
		if kind == 3 {
			cmp = desc
		}
		ordered(cmp, true, false)
		t := rbtree.New[int, int](cmp)
		each(func(k, v int) { t.Insert(k, v) }, func(k int) {
			if n := t.FindNode(k); n != nil {
				t.Delete(n)
			}
		})
		return travC{name: "rbtree", obj: t, trav: func(f func(titem) bool) { t.Traversal(kvv(f)) }, want: items(true)}, step
	case 4, 5:
		cmp := asc
		var o []treemap.Option
		if kind == 5 {
			cmp, o = desc, append(o, treemap.WithGoroutineSafe())
		}
		ordered(cmp, false, false)
		t := treemap.New[int, int](cmp, o...)
		each(func(k, v int) { t.Insert(k, v) }, func(k int) { t.Erase(k) })
		return travC{name: "map", obj: t, trav: func(f func(titem) bool) { t.Traversal(kvv(f)) }, want: items(true)}, step
	case 6, 7:
		cmp := asc
		var o []treemap.Option
		if kind == 7 {
			cmp, o = desc, append(o, treemap.WithGoroutineSafe())
		}
		ordered(cmp, true, true)
		t := treemap.NewMultiMap[int, int](cmp, o...)
		each(func(k, v int) { t.Insert(k, v) }, func(k int) { t.Erase(k) })
		return travC{name: "multimap", obj: t, trav: func(f func(titem) bool) { t.Traversal(kvv(f)) }, want: items(true)}, step
	case 8, 9:
		cmp := asc
		var o []set.Option
		if kind == 9 {
			cmp, o = desc, append(o, set.WithGoroutineSafe())
		}
		ordered(cmp, false, false)
		t := set.New[int](cmp, o...)
		each(func(k, v int) { t.Insert(k) }, func(k int) { t.Erase(k) })
		return travC{name: "set", obj: t, trav: func(f func(titem) bool) { t.Traversal(func(k int) bool { return f(titem{k: keyText(k)}) }) }, want: items(false), str: t.String}, step
	case 10, 11:
		cmp := asc
		var o []set.Option
		if kind == 11 {
			cmp, o = desc, append(o, set.WithGoroutineSafe())
		}
		ordered(cmp, true, false)
		t := set.NewMultiSet[int](cmp, o...)
		each(func(k, v int) { t.Insert(k) }, func(k int) { t.Erase(k) })
		return travC{name: "multiset", obj: t, trav: func(f func(titem) bool) { t.Traversal(func(k int) bool { return f(titem{k: keyText(k)}) }) }, want: items(false), str: t.String}, step
	case 12, 13:
		cmp := asc
		var o []skiplist.Option
		if kind == 13 {
			cmp, o = desc, append(o, skiplist.WithGoroutineSafe(), skiplist.WithMaxLevel(3))
		}
		ordered(cmp, false, false)
		t := skiplist.New[int, int](cmp, o...)
		each(func(k, v int) { t.Insert(k, v) }, func(k int) { t.Remove(k) })
		return travC{name: "skiplist", obj: t, trav: func(f func(titem) bool) { t.Traversal(kvv(f)) }, want: items(true), keys: []func() []string{func() []string {
			var s []string
			for _, k := range t.Keys() {
				s = append(s, keyText(k))
			}
			return s
		}}}, step
	default:
		ordered(asc, false, false)
		var o []hamt.Option
		if len(hist)&1 == 1 {
			o = append(o, hamt.WithGoroutineSafe())
		}
		t := hamt.New[int](o...)
		each(func(k, v int) { t.Insert([]byte(keyText(k)), v) }, func(k int) { t.Erase([]byte(keyText(k))) })
		return travC{name: "hamt", obj: t, trav: func(f func(titem) bool) {
			t.Traversal(func(k hamt.Key, v int) bool { return f(titem{string(k), v}) })
		}, want: items(true), free: true, keys: []func() []string{t.StringKeys, func() []string {
			var s []string
			for _, k := range t.Keys() {
				s = append(s, string(k))
			}
			return s
		}}}, step
	}
}

// run explores every point at which the visitor may stop.
func (c travC) run(w *core.Worker) (int64, error) {
	digest := func() [2]uint64 {
		w.H.Reset()
		w.H.Graph(c.obj)
		d := w.H.Sum()
		return [2]uint64{uint64(d[0]), uint64(d[1])}
	}
	show := func(t []titem) string { return fmt.Sprintf("%q", t) }
	want := c.want
	n := len(want)
	var execs int64
	before := digest()
	if c.free { // the order of the first complete traversal
		var got []titem
		c.trav(func(t titem) bool { got = append(got, t); return len(got) <= n })
		execs++
		a, b := slices.Clone(got), slices.Clone(want)
		less := func(x, y titem) int { return strings.Compare(x.k, y.k) }
		slices.SortFunc(a, less)
		slices.SortFunc(b, less)
		if !slices.Equal(a, b) {
			return execs, errf("%s: traversal visits %s, the contents are %s", c.name, show(got), show(want))
		}
		want = got
	}
	for k := 0; k <= n+1; k++ { // stop after k visits; n+1: never
		if n > 20 && k > 3 && k < n-3 && k%7 != 0 {
			continue
		}
		if k == 0 && n > 0 {
			continue
		}
		var got []titem
		calls := 0
		c.trav(func(t titem) bool {
			calls++
			got = append(got, t)
			if calls > n+1 {
				panic(fmt.Sprintf("%s: the visitor is called more than %d times with %d elements", c.name, calls-1, n))
			}
			return calls != k // an implementation that goes on is seen by the count
		})
		execs++
		exp := want[:min(n, k)]
		if k > n {
			exp = want
		}
		if !slices.Equal(got, exp) {
			return execs, errf("%s: visitor stopping after %d visits sees %s, want %s", c.name, k, show(got), show(exp))
		}
		if digest() != before {
			// something inside changed: that is a violation if it can be observed
			if err := c.unhurt(k); err != nil {
				return execs, err
			}
			before = digest()
		}
	}
	// a visitor that returns false every time is called once
	calls := 0
	c.trav(func(titem) bool { calls++; return calls > 3*n+8 })
	execs++
	if calls != min(n, 1) {
		return execs, errf("%s: a visitor that always returns false is called %d times", c.name, calls)
	}
	var ks []string
	for _, t := range want {
		ks = append(ks, t.k)
	}
	for i, f := range c.keys {
		got := f()
		execs++
		exp := slices.Clone(ks)
		if c.free {
			got = slices.Clone(got)
			slices.Sort(got)
			slices.Sort(exp)
		}
		if !slices.Equal(got, exp) {
			return execs, errf("%s: listing %d of the keys %q, the traversal visits %q", c.name, i, got, exp)
		}
	}
	if c.str != nil {
		execs++
		if got, exp := c.str(), seqString(ks); got != exp {
			return execs, errf("%s: String() = %s, the traversal visits %s", c.name, got, exp)
		}
	}
	if digest() != before {
		var got []titem
		c.trav(func(t titem) bool { got = append(got, t); return len(got) <= n })
		if !slices.Equal(got, want) {
			return execs, errf("%s: listing changed the container", c.name)
		}
	}
	return execs, nil
}

func init() {
	builders["P29"] = func(c Ctx) []any {
		var parts []any
		dec := func(k int) string { return fmt.Sprint(k) }
		// every history of insertions and erasures up to a length
		add := func(name string, kinds []int, base, maxLen int, text func(int) string) {
			var offs []int64 // number of histories of length < i
			tot := int64(0)
			p := int64(1)
			for l := 0; l <= maxLen; l++ {
				offs = append(offs, tot)
				tot += p
				p *= int64(2 * base)
			}
			get := func(i int64) (int, []int) {
				kind := kinds[int(i%int64(len(kinds)))]
				i /= int64(len(kinds))
				l := maxLen
				for offs[l] > i {
					l--
				}
				i -= offs[l]
				h := make([]int, l)
				for j := range h {
					d := int(i % int64(2*base))
					i /= int64(2 * base)
					if d >= base {
						d = -(d - base) - 1
					}
					h[j] = d
				}
				return kind, h
			}
			parts = append(parts, &core.Enum{Name: name, N: tot * int64(len(kinds)), Run: func(w *core.Worker, i int64) (int64, error) {
				k, h := get(i)
				return mkTrav(k, h, text).run(w)
			}, Show: func(i int64) string {
				k, h := get(i)
				return fmt.Sprintf("%s: history %v (k inserts key k, -k-1 erases it)", mkTrav(k, nil, text).name, h)
			}})
		}
		lists := []int{0, 1}
		sorted := []int{2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}
		add("lists, all histories of pushes and removals", lists, 2, c.Pick(6, 8), dec)
		add("ordered containers, all histories of insertions and erasures, 3 keys", sorted, 3, c.Pick(5, 7), dec)
		add("ordered containers, all histories of insertions and erasures, 5 keys", sorted, 5, c.Pick(4, 5), dec)
		for i, pool := range hamtPools() {
			pool := pool
			base := min(len(pool), c.Pick(5, 6))
			add(fmt.Sprintf("hash trie, key pool %d, all histories of insertions and erasures", i), []int{14}, base, c.Pick(4, 5), func(k int) string { return pool[k] })
			// all subsets, in both orders of insertion
			n := len(pool)
			parts = append(parts, &core.Enum{Name: fmt.Sprintf("hash trie, key pool %d, all sets of keys", i), N: 2 << n, Run: func(w *core.Worker, i int64) (int64, error) {
				var h []int
				for k := 0; k < n; k++ {
					if i>>1>>k&1 == 1 {
						h = append(h, k)
					}
				}
				if i&1 == 1 {
					slices.Reverse(h)
				}
				return mkTrav(14, h, func(k int) string { return pool[k] }).run(w)
			}})
		}
		// large contents
		sizes := []int{6, 7, 8, 12, 31, 64, 65, 200, 1000}
		if c.Thorough() {
			sizes = append(sizes, 4096, 20000)
		}
		parts = append(parts, &core.Enum{Name: "large contents", N: int64(len(sizes) * travKinds * 3), Chunk: 1, Run: func(w *core.Worker, i int64) (int64, error) {
			n := sizes[int(i)/(travKinds*3)]
			kind := int(i) % travKinds
			how := int(i) / travKinds % 3
			var h []int
			for k := 0; k < n; k++ {
				switch how {
				case 0:
					h = append(h, k)
				case 1:
					h = append(h, n-1-k)
				case 2:
					h = append(h, k*7919%n)
				}
			}
			if how == 2 {
				for k := 0; k < n; k += 3 {
					h = append(h, -k-1)
				}
			}
			return mkTrav(kind, h, dec).run(w)
		}, Show: func(i int64) string {
			return fmt.Sprintf("container kind %d with %d keys, arrangement %d", int(i)%travKinds, sizes[int(i)/(travKinds*3)], int(i)/travKinds%3)
		}})
		return parts
	}
}
