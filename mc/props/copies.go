package props

import (
	"fmt"
	"slices"

	"github.com/liyue201/gostl/ds/array"
	"github.com/liyue201/gostl/ds/hamt"
	"github.com/liyue201/gostl/ds/ketama"
	"github.com/liyue201/gostl/ds/list/simplelist"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/ds/vector"
	"verifmc/core"
	"verifmc/snap"
)

// jointM runs several machines side by side: every operation acts on one of
// them, and afterwards all of them have to be as their own model says.
type jointM struct {
	ms    []core.Machine
	names []string
	shift uint
	few   func(o uint32) bool // if set: the operations to keep
	hist  []uint32
	tree  bool // no merging of states: hidden state outside of the containers counts
}

func (s *jointM) Ops(o []uint32) []uint32 {
	for i, m := range s.ms {
		n := len(o)
		o = m.Ops(o)
		w := n
		var kinds uint64
		for k := n; k < len(o); k++ {
			x := o[k]
			if s.tree { // the first operation of each kind
				if b := uint64(1) << (x >> 24 & 63); kinds&b != 0 {
					continue
				} else {
					kinds |= b
				}
			}
			if s.few != nil && !s.few(x) {
				continue
			}
			o[w] = x | uint32(i)<<s.shift
			w++
		}
		o = o[:w]
	}
	return o
}
func (s *jointM) split(o uint32) (core.Machine, string, uint32) {
	i := o >> s.shift
	return s.ms[i], s.names[i], o &^ (i << s.shift)
}
func (s *jointM) Name(o uint32) string {
	m, n, o := s.split(o)
	return n + ": " + m.Name(o)
}
func (s *jointM) Do(o uint32) error {
	if s.tree {
		s.hist = append(s.hist, o)
	}
	m, n, o := s.split(o)
	if err := m.Do(o); err != nil {
		return errf("%s: %w", n, err)
	}
	for i, x := range s.ms {
		if err := x.Check(); err != nil {
			return errf("after %s of %s: %s: %w", m.Name(o), n, s.names[i], err)
		}
	}
	return nil
}
func (s *jointM) Check() error {
	for i, x := range s.ms {
		if err := x.Check(); err != nil {
			return errf("%s: %w", s.names[i], err)
		}
	}
	return nil
}
func (s *jointM) State(h *snap.Hasher) {
	if s.tree {
		for _, o := range s.hist {
			h.Int(int(o))
		}
		return
	}
	for _, m := range s.ms {
		m.State(h)
	}
}

// keysM holds lists of keys obtained from a container next to the container itself.
type keysM struct {
	core.Machine
	get  func() any // a fresh list of keys
	size func() int
	held []any
	was  []string
	max  int
}

const (
	kGet     = 0x70
	kScratch = 0x71
)

func (s *keysM) Ops(o []uint32) []uint32 {
	o = s.Machine.Ops(o)
	if len(s.held) < s.max {
		o = append(o, op(kGet, 0, 0))
	}
	for i := range s.held {
		o = append(o, op(kScratch, i, 0), op(kScratch, i, 1))
	}
	return o
}
func (s *keysM) Name(o uint32) string {
	switch k, a, b := unop(o); k {
	case kGet:
		return "Keys()"
	case kScratch:
		return fmt.Sprintf("%s list of keys %d", [...]string{"overwrite", "append to"}[b], a)
	}
	return s.Machine.Name(o)
}
func (s *keysM) Do(o uint32) error {
	k, a, b := unop(o)
	switch k {
	case kGet:
		l := s.get()
		s.held = append(s.held, l)
		s.was = append(s.was, fmt.Sprintf("%q", l))
		return nil
	case kScratch:
		switch l := s.held[a].(type) {
		case []Key:
			scratch(l, b, -99)
		case []string:
			scratch(l, b, "scratch")
		case []hamt.Key:
			scratch(l, b, hamt.Key("scratch"))
		}
		s.was[a] = fmt.Sprintf("%q", s.held[a])
		return nil
	}
	return s.Machine.Do(o)
}
func scratch[T any](l []T, how int, v T) {
	if how == 1 {
		_ = append(l, v)
		_ = append(l[:len(l):cap(l)], v, v)
		return
	}
	for i := range l {
		l[i] = v
	}
}
func (s *keysM) Check() error {
	for i, l := range s.held {
		if g := fmt.Sprintf("%q", l); g != s.was[i] {
			return errf("list of keys obtained earlier was %s, now it is %s", s.was[i], g)
		}
	}
	return s.Machine.Check()
}
func (s *keysM) State(h *snap.Hasher) {
	s.Machine.State(h)
	for i := range s.held {
		h.Int(s.size())
		h.Graph(&s.held[i])
	}
}

// pairSpecs returns what is explored with a copy and its original.
func copySpecs(c Ctx) []any {
	var parts []any
	depth := c.Pick(4, 5)
	most := c.Pick(60000, 1500000)
	// vectors
	parts = append(parts, &core.Spec{Name: "a vector and its copy", Roots: 24, Depth: depth - 1, Max: most, Root: func(r int) core.Machine {
		n, room, safe := r%4, r/4%3, r/12
		a := &vectorM{nocap: true, v: vector.New[Val](), limit: n + 2}
		switch room {
		case 1:
			a.v.Reserve(n + 2)
			a.reserve = n + 2
		case 2:
			a.v.Reserve(8)
			a.reserve = 8
		}
		for i := 0; i < n; i++ {
			v := a.val()
			a.v.PushBack(v)
			a.m = append(a.m, v)
		}
		if safe == 1 { // popped values remain behind the end
			v := a.val()
			a.v.PushBack(v)
			a.v.PopBack()
		}
		b := &vectorM{nocap: true, v: vector.NewFromVector(a.v), limit: n + 2, next: 1000, m: slices.Clone(a.m)}
		return &jointM{ms: []core.Machine{a, b}, names: []string{"original", "copy"}, shift: 31}
	}})
	// arrays
	parts = append(parts, &core.Spec{Name: "arrays and their copies", Roots: 4, Depth: depth, Max: most, Root: func(r int) core.Machine {
		m := &arrayM{}
		a := array.New[Val](r)
		var l []Val
		for i := 0; i < r; i++ {
			m.next++
			a.Set(i, m.next)
			l = append(l, m.next)
		}
		b := array.NewFromArray(a)
		m.a = [3]*array.Array[Val]{a, b, array.NewFromArray(b)}
		for k := range m.m {
			m.m[k] = slices.Clone(l)
		}
		return m
	}})
	// lists
	parts = append(parts, &core.Spec{Name: "a list and a list it was copied into", Roots: 16, Depth: depth, Max: most, Root: func(r int) core.Machine {
		n, k, front := r%4, r/4%2, r/8 == 1
		s := newBid(n+1, n+k+1)
		s.nocopy = true
		for i := 0; i < n+k; i++ {
			l := i / max(n, 1)
			if n == 0 {
				l = 1
			}
			l = min(l, 1)
			v := s.val()
			s.l[l].PushBack(v)
			s.m[l] = append(s.m[l], bnode{v, s.l[l].BackNode()})
		}
		var add []bnode
		if front {
			s.l[1].PushFrontList(s.l[0])
			x := s.l[1].FrontNode()
			for _, e := range s.m[0] {
				add = append(add, bnode{e.v, x})
				x = x.Next()
			}
			s.m[1] = append(add, s.m[1]...)
		} else {
			s.l[1].PushBackList(s.l[0])
			x := s.l[1].BackNode()
			for i := len(s.m[0]) - 1; i >= 0; i-- {
				add = insertAt(add, 0, bnode{s.m[0][i].v, x})
				x = x.Prev()
			}
			s.m[1] = append(s.m[1], add...)
		}
		return s
	}})
	// lists of keys
	parts = append(parts, &core.Spec{Name: "skip lists and lists of their keys", Roots: 4, Depth: c.Pick(6, 9), Max: most, Root: func(r int) core.Machine {
		s := newSkip(cmpKind(r&1), r>>1 == 1, 2, 3)
		l := s.l
		return &keysM{Machine: s, get: func() any { return l.Keys() }, size: l.Len, max: 2}
	}})
	parts = append(parts, &core.Spec{Name: "hash tries and lists of their keys", Roots: 4, Depth: c.Pick(6, 9), Max: most, Root: func(r int) core.Machine {
		s := newHamt(r>>1 == 1, hamtPools()[r%4][:4])
		h := s.h
		return &keysM{Machine: s, get: func() any {
			if r&1 == 1 {
				return h.StringKeys()
			}
			return h.Keys()
		}, size: s.Len, max: 2}
	}})
	// results of set operations
	parts = append(parts, &core.Spec{Name: "two sets and the result of an operation on them", Roots: 3 * 8 * 8, Depth: c.Pick(2, 3), Max: c.Pick(80000, 1500000), Root: func(r int) core.Machine {
		which, x, y := r%3, r/3%8, r/24
		ks := []Key{10, 20, 30}
		pick := func(b int) (o []Key) {
			for i, k := range ks {
				if b>>i&1 == 1 {
					o = append(o, k)
				}
			}
			return o
		}
		bits := []int{x & y, x | y, x &^ y}[which]
		a, b := setOf(0, which == 1, pick(x), 0), setOf(0, which == 1, pick(y), 1)
		var res *set.Set[Key]
		switch which {
		case 0:
			res = a.theSet().Intersect(b.theSet())
		case 1:
			res = a.theSet().Union(b.theSet())
		case 2:
			res = a.theSet().Diff(b.theSet())
		}
		m := &ordM{a: setAd(res), limit: 4, next: 500}
		for _, k := range pick(bits) {
			m.m = append(m.m, oent{k: k})
		}
		a.limit, b.limit = 4, 4
		return &jointM{ms: []core.Machine{a, b, m}, names: []string{"first set", "second set", "result"}, shift: 29}
	}})
	parts = append(parts, &core.Spec{Name: "a set combined with itself and the result", Roots: 3 * 8, Depth: c.Pick(3, 4), Max: c.Pick(40000, 1000000), Root: func(r int) core.Machine {
		which, x := r%3, r/3
		var ks []Key
		for i, k := range []Key{10, 20, 30} {
			if x>>i&1 == 1 {
				ks = append(ks, k)
			}
		}
		a := setOf(0, true, ks, 0)
		var res *set.Set[Key]
		switch which {
		case 0:
			res = a.theSet().Intersect(a.theSet())
		case 1:
			res = a.theSet().Union(a.theSet())
		case 2:
			res = a.theSet().Diff(a.theSet())
			ks = nil
		}
		m := &ordM{a: setAd(res), limit: 4, next: 500}
		for _, k := range ks {
			m.m = append(m.m, oent{k: k})
		}
		a.limit = 4
		return &jointM{ms: []core.Machine{a, m}, names: []string{"set", "result"}, shift: 29}
	}})
	// exported filters
	parts = append(parts, &core.Spec{Name: "Bloom filters and filters created from their data", Roots: 6, Depth: c.Pick(5, 6), Max: c.Pick(20000, 200000), Root: func(r int) core.Machine {
		return newBloom([]uint64{1, 13, 64}[r%3], []uint64{1, 3, 2}[r%3], r/3 == 1, 3, 3)
	}})
	return parts
}

// kinds of containers created separately
func separate(kind int, second bool, opts *qsOpts) (core.Machine, string) {
	base := Val(1)
	if second {
		base = 1000
	}
	const limit = 3
	switch kind {
	case 0:
		d := newDeque()
		d.bad, d.limit, d.next = false, 5, base
		return d, "deque"
	case 1:
		return &vectorM{nocap: true, v: vector.New[Val](), limit: limit, next: base}, "vector"
	case 2:
		s := newBid(limit, 0)
		s.solo, s.nocopy, s.next = true, true, base
		return s, "bidlist"
	case 3:
		s := newSim(limit)
		s.l, s.next = simplelist.New[Val](), base
		return s, "simplelist"
	case 4, 5, 6, 7, 8, 9:
		r := []int{0, 1, qsKinds, 2 * qsKinds, 2*qsKinds + 1, 3*qsKinds + 1}[kind-4]
		s := newQSWith(r, 4, opts)
		s.next = base
		if s.q != nil {
			return s, "queue"
		}
		return s, "stack"
	case 10:
		s := newPQ(0, 4, 2)
		return s, "priority queue"
	case 11, 12, 13, 14, 15:
		mk := []func() *ordAd{
			func() *ordAd { return newTreeAd(0, false) }, func() *ordAd { return newMapAd(0, true) }, func() *ordAd { return newMultiMapAd(0, true) },
			func() *ordAd { return newSetAd(0, true) }, func() *ordAd { return newMultiSetAd(0, true) }}[kind-11]
		s := newOrd(mk, false, limit, 2)
		s.next = base
		return s, s.a.name
	case 16:
		s := newSkip(0, true, 2, limit)
		s.next = base
		return s, "skiplist"
	case 17, 18:
		s := newHamt(kind == 18, hamtPools()[(kind-17)*3][:3])
		s.next = base
		return s, "hamt"
	case 19:
		return newBit(16, []uint64{0, 7, 8, 15}, []uint64{8, 16, 24}), "bitmap"
	case 20:
		return newBloom(13, 2, false, 3, 1), "bloom filter"
	case 21:
		m := &arrayM{next: base}
		m.a = [3]*array.Array[Val]{array.New[Val](2), array.New[Val](0), array.New[Val](1)}
		m.m = [3][]Val{make([]Val, 2), {}, make([]Val, 1)}
		return m, "array"
	case 22:
		return &ringM{k: ketama.New(ringOpts(false, 1)...), ref: sepRing}, "ring"
	}
	panic("no such kind")
}

const sepKinds = 23

var sepRing = &ringRef{replicas: 1, names: ringPool[:2], keys: ringKeys(24), at: map[int][]int8{}}

func init() {
	builders["P35"] = func(c Ctx) []any {
		var parts []any
		if c.Variant == "plain" {
			parts = copySpecs(c)
		}
		for k := 0; k < sepKinds; k++ {
			if c.Variant != "plain" && k != 0 && k != 4 && k != 8 {
				continue
			}
			_, name := separate(k, false, nil)
			depth := c.Pick(5, 7)
			parts = append(parts, &core.Spec{Name: fmt.Sprintf("two separate containers (%d %s) %s", k, name, c.Variant), Roots: 1, Depth: depth, Max: c.Pick(12000, 400000), Root: func(int) core.Machine {
				opts := newQSOpts() // the same for both
				a, _ := separate(k, false, opts)
				b, _ := separate(k, true, opts)
				return &jointM{ms: []core.Machine{a, b}, names: []string{"first " + name, "second " + name}, shift: 31}
			}})
		}
		// the same without merging of states, in case containers share something that is not reachable from them
		for k := 0; k < sepKinds; k++ {
			if c.Variant != "plain" && k != 0 && k != 4 && k != 8 {
				continue
			}
			_, name := separate(k, false, nil)
			depth := c.Pick(4, 5)
			if k >= 16 && k <= 20 && k != 19 {
				depth = c.Pick(5, 6)
			}
			if k == 1 {
				depth = c.Pick(3, 4)
			}
			var few func(o uint32) bool
			if k == 0 {
				few = func(o uint32) bool {
					switch o >> 24 {
					case dPF, dPB, dPopF, dPopB, dClear:
						return true
					}
					return false
				}
				depth = c.Pick(4, 5)
				if c.Variant != "plain" {
					depth++
				}
			}
			if k >= 4 && k < 11 {
				depth = c.Pick(5, 6)
			}
			parts = append(parts, &core.Spec{Name: fmt.Sprintf("two separate containers (%d %s), histories without merging of states %s", k, name, c.Variant), Roots: 1, Depth: depth, Max: c.Pick(150000, 400000), Root: func(int) core.Machine {
				opts := newQSOpts() // the same for both
				a, _ := separate(k, false, opts)
				b, _ := separate(k, true, opts)
				return &jointM{ms: []core.Machine{a, b}, names: []string{"first " + name, "second " + name}, shift: 31, tree: true, few: few}
			}})
		}
		return parts
	}
}
