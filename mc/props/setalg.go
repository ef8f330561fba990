package props

import (
	"fmt"

	"github.com/liyue201/gostl/ds/set"
	"verifmc/core"
)

// setOf builds a set holding the given keys; how selects one of several histories leading to it.
func setOf(kind cmpKind, safe bool, keys []Key, how int) *ordM {
	n := new(int)
	var o []set.Option
	if safe {
		o = append(o, set.WithGoroutineSafe())
	}
	st := set.New[Key](keyCmp(kind, n), o...)
	m := &ordM{a: setAd(st), desc: kind&1 == 1, next: 1, limit: 1 << 20}
	add := func(k Key) {
		i := m.hi(k)
		st.Insert(k)
		if i > 0 && m.m[i-1].k == k {
			return
		}
		m.m = insertAt(m.m, i, oent{k: k})
	}
	del := func(k Key) {
		i := m.lo(k)
		st.Erase(k)
		if i < len(m.m) && m.m[i].k == k {
			m.m = append(m.m[:i], m.m[i+1:]...)
		}
	}
	switch how {
	case 0:
		for _, k := range keys {
			add(k)
		}
	case 1:
		for i := len(keys) - 1; i >= 0; i-- {
			add(keys[i])
		}
	case 2: // around other elements, which are erased again
		for _, k := range keys {
			add(k + 0.5)
			add(k)
			add(k)
			add(k - 0.25)
		}
		for _, k := range keys {
			del(k + 0.5)
			del(k - 0.25)
		}
	case 3: // after a clear
		for _, k := range keys {
			add(k + 0.5)
		}
		st.Clear()
		m.m = nil
		for i := range keys {
			add(keys[(i*5+len(keys)/2)%len(keys)])
		}
		for _, k := range keys {
			add(k)
		}
	}
	return m
}

func (m *ordM) theSet() *set.Set[Key] { return m.a.obj.(*set.Set[Key]) }

// algebra applies operation which to a and b and checks result and independence.
func algebra(a, b *ordM, which int, full bool) (int64, error) {
	in := func(m *ordM, k Key) bool { i := m.lo(k); return i < len(m.m) && m.m[i].k == k }
	var want []oent
	name := ""
	var r *set.Set[Key]
	switch which {
	case 0:
		name, r = "Intersect", a.theSet().Intersect(b.theSet())
		for _, e := range a.m {
			if in(b, e.k) {
				want = append(want, oent{k: e.k})
			}
		}
	case 1:
		name, r = "Union", a.theSet().Union(b.theSet())
		i, j := 0, 0
		for i < len(a.m) || j < len(b.m) {
			switch {
			case j == len(b.m) || i < len(a.m) && a.less(a.m[i].k, b.m[j].k):
				want = append(want, oent{k: a.m[i].k})
				i++
			case i == len(a.m) || a.less(b.m[j].k, a.m[i].k):
				want = append(want, oent{k: b.m[j].k})
				j++
			default:
				want = append(want, oent{k: a.m[i].k})
				i++
				j++
			}
		}
	case 2:
		name, r = "Diff", a.theSet().Diff(b.theSet())
		for _, e := range a.m {
			if !in(b, e.k) {
				want = append(want, oent{k: e.k})
			}
		}
	}
	if r == nil {
		return 1, errf("%s returns nil", name)
	}
	if r == a.theSet() || r == b.theSet() {
		return 1, errf("%s returns an operand, not a new set", name)
	}
	res := &ordM{a: setAd(r), desc: a.desc, next: 1, limit: 1 << 20, m: want}
	chk := func(when string) error {
		for i, m := range []*ordM{res, a, b} {
			if err := m.Check(); err != nil {
				return errf("%s: %s: %s: %w", name, when, [...]string{"result", "first operand", "second operand"}[i], err)
			}
		}
		return nil
	}
	if err := chk("after the operation"); err != nil {
		return 1, err
	}
	if !full {
		return 1, nil
	}
	look := func(when string) error {
		for i, m := range []*ordM{res, a, b} {
			if err := m.walk(); err != nil {
				return errf("%s: %s: %s: %w", name, when, [...]string{"result", "first operand", "second operand"}[i], err)
			}
		}
		return nil
	}
	// change each of the three and look at the others
	ops := int64(1)
	for i, m := range []*ordM{res, a, b, res} {
		for _, o := range []uint32{opw(oInsGap, 0), opw(oInsGap, len(m.m)), opw(oInsGap, len(m.m)/2), opw(oErase, len(m.m)/2), opw(oErase, 0)} {
			if len(m.m) == 0 && o>>24 == oErase {
				continue
			}
			ops++
			if err := m.Do(o); err != nil {
				return ops, errf("%s: changing set %d afterwards: %s: %w", name, i, m.Name(o), err)
			}
			if err := first(look("after changing a set"), m.Check()); err != nil {
				return ops, err
			}
		}
	}
	ops++
	a.Do(opw(oClear, 0))
	if err := chk("after changing all and clearing the first operand"); err != nil {
		return ops, err
	}
	res.Do(opw(oClear, 0))
	return ops, look("after clearing the result")
}

// walk compares the contents without asking about every key.
func (s *ordM) walk() error {
	if s.a.size() != len(s.m) {
		return want("Size()", s.a.size(), len(s.m))
	}
	i := 0
	for c := s.a.firsts[0](); c.valid(); c = c.next() {
		if i >= len(s.m) || c.key() != s.m[i].k || c.val() != s.m[i].v {
			return errf("step %d of the walk meets %v", i, c.key())
		}
		i++
	}
	return want("entries met", i, len(s.m))
}

func init() {
	bits := func(x int64, n int) []Key {
		var ks []Key
		for i := 0; i < n; i++ {
			if x>>i&1 == 1 {
				ks = append(ks, Key(i))
			}
		}
		return ks
	}
	builders["P15"] = func(c Ctx) []any {
		n := c.Pick(7, 9)
		N := int64(1) << (2 * n)
		variant := func(x int64) (kind cmpKind, sa, sb bool, ha, hb int) {
			return cmpKind(x & 3), x>>2&1 == 1, x>>3&1 == 1, int(x >> 4 & 3), int(x >> 6 & 3)
		}
		sub := func(i int64) (a, b []Key) { return bits(i&(1<<n-1), n), bits(i>>n, n) }
		all := &core.Enum{Name: fmt.Sprintf("all pairs of subsets of %d elements, all operations", n), N: N * 3,
			Show: func(i int64) string {
				a, b := sub(i / 3)
				return fmt.Sprintf("%v %s %v", a, [...]string{"Intersect", "Union", "Diff"}[i%3], b)
			},
			Run: func(w *core.Worker, i int64) (int64, error) {
				ka, kb := sub(i / 3)
				kind, sa, sb, ha, hb := variant(int64(uint64(i/3)*0x9e3779b97f4a7c15>>40) & 255)
				return algebra(setOf(kind, sa, ka, ha), setOf(kind, sb, kb, hb), int(i%3), true)
			}}
		n2 := c.Pick(3, 4)
		hist := &core.Enum{Name: fmt.Sprintf("all pairs of subsets of %d elements, all histories, orders and options", n2), N: int64(1) << (2*n2 + 8) * 3,
			Show: func(i int64) string {
				x := i / 3
				return fmt.Sprintf("%v %s %v, variant %d", bits(x&(1<<n2-1), n2), [...]string{"Intersect", "Union", "Diff"}[i%3], bits(x>>n2&(1<<n2-1), n2), x>>(2*n2))
			},
			Run: func(w *core.Worker, i int64) (int64, error) {
				x := i / 3
				kind, sa, sb, ha, hb := variant(x >> (2 * n2))
				return algebra(setOf(kind, sa, bits(x&(1<<n2-1), n2), ha), setOf(kind, sb, bits(x>>n2&(1<<n2-1), n2), hb), int(i%3), true)
			}}
		n3 := c.Pick(9, 12)
		same := &core.Enum{Name: "a set with itself", N: int64(1) << n3 * 3 * 8,
			Show: func(i int64) string {
				return fmt.Sprintf("%v %s itself", bits(i/24, n3), [...]string{"Intersect", "Union", "Diff"}[i%3])
			},
			Run: func(w *core.Worker, i int64) (int64, error) {
				v := i / 3 % 8
				a := setOf(cmpKind(v&3), v>>2 == 1, bits(i/24, n3), int(i/24)%4)
				return algebra(a, a, int(i%3), true)
			}}
		// large sets: multiples of i and multiples of j, shifted
		L := c.Pick(300, 1500)
		big := &core.Enum{Name: "large sets", N: 6 * 6 * 4 * 3,
			Show: func(i int64) string {
				return fmt.Sprintf("steps %d, %d, shift %d, operation %d", i/12%6+1, i/72+1, i/3%4, i%3)
			},
			Run: func(w *core.Worker, i int64) (int64, error) {
				pa, pb, sh := int(i/12%6)+1, int(i/72)+1, int(i/3%4)
				var ka, kb []Key
				for x := 0; x < L; x += pa {
					ka = append(ka, Key(x))
				}
				for x := sh * sh * 20; x < L; x += pb {
					kb = append(kb, Key(x))
				}
				kind, sa, sb, ha, hb := variant(i * 37 & 255)
				return algebra(setOf(kind, sa, ka, ha), setOf(kind, sb, kb, hb), int(i%3), false)
			}}
		return []any{all, hist, same, big}
	}
}
