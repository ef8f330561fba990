package props

import (
	"fmt"
	"slices"
	"sync"

	"github.com/liyue201/gostl/ds/skiplist"
	"verifmc/core"
	"verifmc/snap"
	"verifmc/vrand"
)

// skipM is a skip list next to a sorted slice; the levels are chosen by the operations.
type skipM struct {
	l      *skiplist.Skiplist[Key, Val]
	src    *vrand.Chosen
	m      []oent
	desc   bool
	next   Val
	limit  int
	levels []uint64 // outcomes of the random source to choose from
	light  bool
}

var skipMu sync.Mutex

func newSkip(kind cmpKind, safe bool, maxLevel, limit int) *skipM {
	s := &skipM{next: 1, limit: limit, desc: kind&1 == 1}
	var o []skiplist.Option
	if safe {
		o = append(o, skiplist.WithGoroutineSafe())
	}
	lv := maxLevel
	if maxLevel > 0 {
		o = append(o, skiplist.WithMaxLevel(maxLevel))
	} else {
		lv = 10
	}
	skipMu.Lock()
	vrand.OnNew(func(c *vrand.Chosen) { s.src = c })
	s.l = skiplist.New[Key, Val](keyCmp(kind, new(int)), o...)
	vrand.OnNew(func(c *vrand.Chosen) {})
	skipMu.Unlock()
	lv = min(lv, 64)
	for j := 1; j <= lv; j++ {
		if lv > 4 && j > 2 && j < lv && j != 5 {
			continue
		}
		s.levels = append(s.levels, 1<<uint(lv-j)-1)
	}
	return s
}

func (s *skipM) Len() int { return len(s.m) }
func (s *skipM) ord() *ordM {
	return &ordM{m: s.m, desc: s.desc}
}

func (s *skipM) Ops(o []uint32) []uint32 {
	n := len(s.m)
	for g := 0; g <= n; g++ {
		if n < s.limit {
			for j := range s.levels {
				o = append(o, op(oInsGap, g, j))
			}
		}
		o = append(o, op(oEraseGap, g, 0))
	}
	for i := 0; i < n; i++ {
		o = append(o, op(oInsDup, i, 0), op(oErase, i, 0))
		if len(s.levels) > 1 {
			o = append(o, op(oInsDup, i, len(s.levels)-1))
		}
	}
	return append(o, op(oObs, 0, 0))
}

func (s *skipM) Name(o uint32) string {
	k, a, b := unop(o)
	switch k {
	case oInsGap:
		return fmt.Sprintf("Insert(new key in gap %d) with random value %d", a, s.levels[b])
	case oInsDup:
		return fmt.Sprintf("Insert(key of entry %d) with random value %d", a, s.levels[b])
	case oErase:
		return fmt.Sprintf("Remove(key of entry %d)", a)
	case oEraseGap:
		return fmt.Sprintf("Remove(absent key in gap %d)", a)
	}
	return "observe"
}

func (s *skipM) Do(o uint32) error {
	k, a, b := unop(o)
	switch k {
	case oInsGap, oInsDup:
		var key Key
		if k == oInsDup {
			key = s.m[a].k
		} else {
			var ok bool
			if key, ok = s.ord().gap(a); !ok {
				return nil
			}
		}
		v := s.next
		s.next++
		if s.src != nil {
			s.src.Choose(s.levels[b])
		}
		s.l.Insert(key, v)
		if k == oInsDup {
			s.m[a].v = v
		} else {
			s.m = insertAt(s.m, a, oent{k: key, v: v})
		}
	case oErase:
		key := s.m[a].k
		s.m = slices.Delete(s.m, a, a+1)
		if err := want("Remove() of a key that is there", s.l.Remove(key), true); err != nil {
			return err
		}
	case oEraseGap:
		key, ok := s.ord().gap(a)
		if !ok {
			return nil
		}
		if err := want("Remove() of a key that is not there", s.l.Remove(key), false); err != nil {
			return err
		}
	case oObs:
		return s.Check()
	}
	return want("Len()", s.l.Len(), len(s.m))
}

func (s *skipM) Check() error {
	n := len(s.m)
	if err := want("Len()", s.l.Len(), n); err != nil {
		return err
	}
	i := 0
	var err error
	s.l.Traversal(func(k Key, v Val) bool {
		if err == nil && (i >= n || s.m[i].k != k || s.m[i].v != v) {
			err = errf("entry %d of the traversal is %v:%v", i, k, v)
		}
		i++
		return true
	})
	if err = first(err, want("entries traversed", i, n)); err != nil {
		return err
	}
	ks := s.l.Keys()
	if len(ks) != n {
		return errf("Keys() lists %d keys, want %d", len(ks), n)
	}
	for i, k := range ks {
		if k != s.m[i].k {
			return errf("Keys()[%d] = %v, want %v", i, k, s.m[i].k)
		}
	}
	for _, e := range s.m {
		v, err := s.l.Get(e.k)
		if err != nil || v != e.v {
			return errf("Get(%v) = %v, %v, want %v", e.k, v, err, e.v)
		}
	}
	q := s.ord()
	for g := 0; g <= n; g++ {
		if k, ok := q.gap(g); ok {
			if v, err := s.l.Get(k); err == nil || v != 0 {
				return errf("Get(%v) of an absent key = %v, %v", k, v, err)
			}
		}
	}
	return nil
}

func (s *skipM) State(h *snap.Hasher) {
	h.Int(len(s.m))
	for _, e := range s.m {
		h.Key(e.k)
		h.Val(e.v)
	}
	h.Graph(s.l)
}

func init() {
	builders["P16"] = func(c Ctx) []any {
		var parts []any
		type cfg struct{ lv, n int }
		cfgs := []cfg{{1, c.Pick(10, 14)}, {2, c.Pick(7, 9)}, {3, c.Pick(6, 7)}, {4, c.Pick(5, 6)}, {0, c.Pick(5, 6)}, {6, c.Pick(5, 6)}, {63, 2}, {64, 3}, {65, 3}, {100, 3}}
		for _, f := range cfgs {
			parts = append(parts, &core.Spec{Name: fmt.Sprintf("all histories, maximum level %d", f.lv), Roots: 4, Depth: c.Pick(12, 40), Max: c.Pick(150000, 2500000),
				Root: func(r int) core.Machine { return newSkip(cmpKind(r), r&1 == 1, f.lv, f.n) }})
		}
		g := func(name string, kind int, pos func(n, k int) int, lv func(k int) int) gen[*skipM] {
			return gen[*skipM]{name, func(m *skipM, k int) uint32 {
				n := len(m.m)
				if n == 0 {
					return op(oInsGap, 0, lv(k)%len(m.levels))
				}
				i := min(pos(n, k), n)
				if kind != oInsGap {
					i = min(i, n-1)
				}
				return op(kind, i, lv(k)%len(m.levels))
			}}
		}
		end := func(n, k int) int { return n }
		start := func(n, k int) int { return 0 }
		half := func(n, k int) int { return n / 2 }
		scat := func(n, k int) int { return k * 7919 % (n + 1) }
		up := []gen[*skipM]{
			g("Insert(last, ruler levels)", oInsGap, end, func(k int) int {
				l := 0
				for k++; k&1 == 0; k >>= 1 {
					l++
				}
				return l
			}),
			g("Insert(first, lowest level)", oInsGap, start, func(k int) int { return 0 }),
			g("Insert(scattered, all levels)", oInsGap, scat, func(k int) int { return k * 5 / 3 }),
			g("Insert(half, highest level)", oInsGap, half, func(k int) int { return 1 << 20 * 3 }),
			g("Insert(scattered, highest level)", oInsGap, scat, func(k int) int { return 59 }),
			g("Insert(same key)", oInsDup, half, func(k int) int { return k }),
		}
		down := []gen[*skipM]{
			g("Remove(first)", oErase, start, func(k int) int { return 0 }),
			g("Remove(last)", oErase, end, func(k int) int { return 0 }),
			g("Remove(scattered)", oErase, scat, func(k int) int { return 0 }),
			g("Remove(absent)", oEraseGap, half, func(k int) int { return 0 }),
			g("Insert(scattered)", oInsGap, scat, func(k int) int { return k }),
		}
		for _, lv := range []int{1, 2, 3, 4, 0, 20, 64, 70} {
			parts = append(parts, periodic(fmt.Sprintf("periodic histories, maximum level %d", lv), func() *skipM { return newSkip(0, lv == 3, lv, 1<<20) }, up, down, 2, c.Pick(1, 2), c.Pick(60, 200), c.Pick(150, 500), 23))
			if lv == 3 || lv == 20 {
				parts = append(parts, lives(fmt.Sprintf("long lives, maximum level %d", lv), func() *skipM { return newSkip(0, lv == 3, lv, 1<<20) }, up, down[:3], 3, c.Pick(66000, 140000)))
			}
		}
		return parts
	}
}
