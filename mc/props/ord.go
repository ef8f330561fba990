package props

import (
	"fmt"
	"math/bits"
	"slices"
	"strings"

	treemap "github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/rbtree"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/utils/iterator"
	"verifmc/core"
	"verifmc/snap"
)

// cursor is a node or an iterator of an ordered container.
type cursor interface {
	valid() bool
	key() Key
	val() Val
	next() cursor // the same cursor moved, or a new one; nil-like ones are !valid
	prev() cursor
	set(v Val)
	same(o cursor) bool
}

type treeNode = rbtree.Node[Key, Val]

type nodeCur struct{ n *treeNode }

func (c nodeCur) valid() bool        { return c.n != nil }
func (c nodeCur) key() Key           { return c.n.Key() }
func (c nodeCur) val() Val           { return c.n.Value() }
func (c nodeCur) next() cursor       { return nodeCur{c.n.Next()} }
func (c nodeCur) prev() cursor       { return nodeCur{c.n.Prev()} }
func (c nodeCur) set(v Val)          { c.n.SetValue(v) }
func (c nodeCur) same(o cursor) bool { return c.n == o.(nodeCur).n }

type treeIterCur struct {
	it *rbtree.RbTreeIterator[Key, Val]
}

func (c treeIterCur) valid() bool { return c.it.IsValid() }
func (c treeIterCur) key() Key    { return c.it.Key() }
func (c treeIterCur) val() Val    { return c.it.Value() }
func (c treeIterCur) next() cursor {
	x := c.it.Clone().(*rbtree.RbTreeIterator[Key, Val])
	x.Next()
	return treeIterCur{x}
}
func (c treeIterCur) prev() cursor {
	x := c.it.Clone().(*rbtree.RbTreeIterator[Key, Val])
	x.Prev()
	return treeIterCur{x}
}
func (c treeIterCur) set(v Val)          { c.it.SetValue(v) }
func (c treeIterCur) same(o cursor) bool { return c.it.Equal(o.(treeIterCur).it) }

type mapCur struct {
	it *treemap.MapIterator[Key, Val]
}

func (c mapCur) valid() bool { return c.it.IsValid() }
func (c mapCur) key() Key    { return c.it.Key() }
func (c mapCur) val() Val    { return c.it.Value() }
func (c mapCur) next() cursor {
	x := c.it.Clone().(*treemap.MapIterator[Key, Val])
	x.Next()
	return mapCur{x}
}
func (c mapCur) prev() cursor {
	x := c.it.Clone().(*treemap.MapIterator[Key, Val])
	x.Prev()
	return mapCur{x}
}
func (c mapCur) set(v Val)          { c.it.SetValue(v) }
func (c mapCur) same(o cursor) bool { return c.it.Equal(o.(mapCur).it) }

type setCur struct{ it *set.SetIterator[Key] }

func (c setCur) valid() bool { return c.it.IsValid() }
func (c setCur) key() Key    { return c.it.Value() }
func (c setCur) val() Val    { return 0 }
func (c setCur) next() cursor {
	x := c.it.Clone().(*set.SetIterator[Key])
	x.Next()
	return setCur{x}
}
func (c setCur) prev() cursor {
	x := c.it.Clone().(*set.SetIterator[Key])
	x.Prev()
	return setCur{x}
}
func (c setCur) set(v Val)          {}
func (c setCur) same(o cursor) bool { return c.it.Equal(o.(setCur).it) }

var _ iterator.ConstKvIterator[Key, Val] = (*treemap.MapIterator[Key, Val])(nil)

// ordAd adapts one kind of ordered container. Functions that a kind does not have are nil.
type ordAd struct {
	name     string
	obj      any
	multi    bool // equal keys are kept
	vals     bool
	insert   func(k Key, v Val)
	get      func(k Key) (Val, bool)
	contains func(k Key) bool
	count    func(k Key) int
	find     func(k Key) cursor
	lower    func(k Key) cursor
	upper    func(k Key) cursor
	firsts   []func() cursor
	lasts    []func() cursor
	erase    func(k Key) // all of a key (map, multimap, set) or one (multiset)
	eraseOne bool
	eraseAll func(k Key)
	eraseCur func(c cursor)
	size     func() int
	empty    func() bool
	clear    func()
	traverse func(f func(k Key, v Val) bool)
	str      func() string
	alg      func(which int, reverse bool, keys []Key) *ordAd // 0: intersection, 1: union, 2: difference with a set of these keys
	valid    func() error                                     // the red-black tree's own validity test
	cmps     *int                                             // comparator calls so far
}

type cmpKind int

// keyCmp returns the comparator of a kind, counting its calls.
func keyCmp(kind cmpKind, n *int) func(a, b Key) int {
	base := func(a, b Key) int {
		if a < b {
			return -1
		}
		if a > b {
			return 1
		}
		return 0
	}
	return func(a, b Key) int {
		*n++
		switch kind {
		case 1:
			return -base(a, b)
		case 2:
			return 7 * base(a, b)
		case 3:
			return -300 * base(a, b)
		}
		return base(a, b)
	}
}

func newTreeAd(kind cmpKind, useIter bool) *ordAd {
	n := new(int)
	t := rbtree.New[Key, Val](keyCmp(kind, n))
	nc := func(x *treeNode) cursor {
		if useIter {
			return treeIterCur{rbtree.NewIterator(x)}
		}
		return nodeCur{x}
	}
	find := func(k Key) *treeNode { return t.FindNode(k) }
	a := &ordAd{name: "rbtree", obj: t, multi: true, vals: true, cmps: n,
		insert: func(k Key, v Val) { t.Insert(k, v) },
		get:    func(k Key) (Val, bool) { v, err := t.Find(k); return v, err == nil },
		find:   func(k Key) cursor { return nc(find(k)) },
		lower:  func(k Key) cursor { return nc(t.FindLowerBoundNode(k)) },
		upper:  func(k Key) cursor { return nc(t.FindUpperBoundNode(k)) },
		firsts: []func() cursor{func() cursor { return nc(t.First()) }, func() cursor { return nc(t.Begin()) }, func() cursor { return treeIterCur{t.IterFirst()} }},
		lasts:  []func() cursor{func() cursor { return nc(t.Last()) }, func() cursor { return nc(t.RBegin()) }, func() cursor { return treeIterCur{t.IterLast()} }},
		eraseCur: func(c cursor) {
			t.Delete(c.(nodeCur).n)
		},
		size: t.Size, empty: t.Empty, clear: t.Clear,
		traverse: func(f func(k Key, v Val) bool) { t.Traversal(f) },
		valid: func() error {
			ok, err := t.IsRbTree()
			if !ok {
				return errf("not a red-black tree: %v", err)
			}
			return err
		},
	}
	if useIter { // iterators of a tree cannot erase
		a.eraseCur = nil
		a.erase, a.eraseOne = func(k Key) { t.Delete(t.FindNode(k)) }, true
	}
	return a
}

func newMapAd(kind cmpKind, safe bool) *ordAd {
	n := new(int)
	var o []treemap.Option
	if safe {
		o = append(o, treemap.WithGoroutineSafe())
	}
	m := treemap.New[Key, Val](keyCmp(kind, n), o...)
	return &ordAd{name: "map", obj: m, vals: true, cmps: n,
		insert:   m.Insert,
		get:      func(k Key) (Val, bool) { v, err := m.Get(k); return v, err == nil },
		contains: m.Contains,
		find:     func(k Key) cursor { return mapCur{m.Find(k)} },
		lower:    func(k Key) cursor { return mapCur{m.LowerBound(k)} },
		upper:    func(k Key) cursor { return mapCur{m.UpperBound(k)} },
		firsts:   []func() cursor{func() cursor { return mapCur{m.First()} }, func() cursor { return mapCur{m.Begin()} }},
		lasts:    []func() cursor{func() cursor { return mapCur{m.Last()} }},
		erase:    m.Erase,
		eraseCur: func(c cursor) { m.EraseIter(c.(mapCur).it) },
		size:     m.Size, clear: m.Clear,
		traverse: func(f func(k Key, v Val) bool) { m.Traversal(f) },
	}
}

func newMultiMapAd(kind cmpKind, safe bool) *ordAd {
	n := new(int)
	var o []treemap.Option
	if safe {
		o = append(o, treemap.WithGoroutineSafe())
	}
	m := treemap.NewMultiMap[Key, Val](keyCmp(kind, n), o...)
	return &ordAd{name: "multimap", obj: m, multi: true, vals: true, cmps: n,
		insert:   m.Insert,
		get:      func(k Key) (Val, bool) { v, err := m.Get(k); return v, err == nil },
		contains: m.Contains,
		find:     func(k Key) cursor { return mapCur{m.Find(k)} },
		lower:    func(k Key) cursor { return mapCur{m.LowerBound(k)} },
		upper:    func(k Key) cursor { return mapCur{m.UpperBound(k)} },
		firsts:   []func() cursor{func() cursor { return mapCur{m.First()} }, func() cursor { return mapCur{m.Begin()} }},
		lasts:    []func() cursor{func() cursor { return mapCur{m.Last()} }},
		erase:    m.Erase,
		size:     m.Size, clear: m.Clear,
		traverse: func(f func(k Key, v Val) bool) { m.Traversal(f) },
	}
}

func newSetAd(kind cmpKind, safe bool) *ordAd {
	n := new(int)
	var o []set.Option
	if safe {
		o = append(o, set.WithGoroutineSafe())
	}
	m := set.New[Key](keyCmp(kind, n), o...)
	return setAdN(m, n)
}

func setAdN(m *set.Set[Key], n *int) *ordAd {
	a := setAd(m)
	a.cmps = n
	a.alg = func(which int, reverse bool, keys []Key) *ordAd {
		p, q := m, m.Diff(m) // an empty set with the same order
		for _, k := range keys {
			q.Insert(k)
		}
		if reverse {
			p, q = q, p
		}
		switch which {
		case 0:
			m = p.Intersect(q)
		case 1:
			m = p.Union(q)
		case 2:
			m = p.Diff(q)
		}
		return setAdN(m, n)
	}
	return a
}

func setAd(m *set.Set[Key]) *ordAd {
	return &ordAd{name: "set", obj: m, cmps: new(int),
		insert:   func(k Key, v Val) { m.Insert(k) },
		contains: m.Contains,
		find:     func(k Key) cursor { return setCur{m.Find(k)} },
		lower:    func(k Key) cursor { return setCur{m.LowerBound(k)} },
		upper:    func(k Key) cursor { return setCur{m.UpperBound(k)} },
		firsts:   []func() cursor{func() cursor { return setCur{m.First()} }, func() cursor { return setCur{m.Begin()} }},
		lasts:    []func() cursor{func() cursor { return setCur{m.Last()} }},
		erase:    m.Erase,
		size:     m.Size, clear: m.Clear, str: m.String,
		traverse: func(f func(k Key, v Val) bool) { m.Traversal(func(k Key) bool { return f(k, 0) }) },
	}
}

func newMultiSetAd(kind cmpKind, safe bool) *ordAd {
	n := new(int)
	var o []set.Option
	if safe {
		o = append(o, set.WithGoroutineSafe())
	}
	m := set.NewMultiSet[Key](keyCmp(kind, n), o...)
	return &ordAd{name: "multiset", obj: m, multi: true, cmps: n,
		insert:   func(k Key, v Val) { m.Insert(k) },
		contains: m.Contains, count: m.Count,
		find:   func(k Key) cursor { return setCur{m.Find(k)} },
		lower:  func(k Key) cursor { return setCur{m.LowerBound(k)} },
		upper:  func(k Key) cursor { return setCur{m.UpperBound(k)} },
		firsts: []func() cursor{func() cursor { return setCur{m.First()} }, func() cursor { return setCur{m.Begin()} }},
		lasts:  []func() cursor{func() cursor { return setCur{m.Last()} }},
		erase:  m.Erase, eraseOne: true, eraseAll: m.EraseAll,
		size: m.Size, clear: m.Clear, str: m.String,
		traverse: func(f func(k Key, v Val) bool) { m.Traversal(func(k Key) bool { return f(k, 0) }) },
	}
}

const (
	oInsGap   = iota + 1 // a new key between two entries
	oInsDup              // an equal key
	oErase               // Erase(key of entry i)
	oEraseGap            // Erase(absent key)
	oEraseAll
	oEraseAllGap
	oEraseCur // through a node or iterator
	oEraseEnd // through an iterator that designates nothing
	oSetVal
	oClear
	oObs
	oUnion     // the set becomes its union with one new key
	oUnionOf   // the set becomes the union of one new key with it
	oDiff      // the set becomes its difference with the set of one of its keys
	oDiffOf    // the set becomes the difference of one new key with it
	oIntersect // the set becomes its intersection with all of its keys but one, and an absent one
	oSelf      // the set becomes its union with a set of the same keys
)

type oent struct {
	k Key
	v Val
	h cursor // handle obtained when the entry was inserted, nil if not held
}

// ordM is an ordered container next to a sorted slice.
type ordM struct {
	a     *ordAd
	mk    func() *ordAd
	desc  bool
	m     []oent
	next  Val
	limit int
	dups  int  // most entries with the same key
	hold  bool // hold a handle for every entry
	rb    bool // check the red-black rules
	costs bool // check numbers of comparisons
	light bool // spot checks only
	noset bool
	alg   bool // set operations
	tall  *rbView
}

func newOrd(mk func() *ordAd, desc bool, limit, dups int) *ordM {
	return &ordM{a: mk(), mk: mk, desc: desc, limit: limit, dups: dups, next: 1}
}

func (s *ordM) Len() int { return len(s.m) }

// cmp orders keys as the container does.
func (s *ordM) less(a, b Key) bool {
	if s.desc {
		return a > b
	}
	return a < b
}

// gap returns a key between entries g-1 and g, NaN-free, false if there is none.
func (s *ordM) gap(g int) (Key, bool) {
	n := len(s.m)
	d := Key(1)
	if s.desc {
		d = -1
	}
	switch {
	case n == 0:
		return 0, true
	case g == 0:
		return s.m[0].k - d, true
	case g == n:
		return s.m[n-1].k + d, true
	}
	a, b := s.m[g-1].k, s.m[g].k
	if a == b {
		return 0, false
	}
	k := a + (b-a)/2
	return k, k != a && k != b
}

func (s *ordM) lo(k Key) int { // first entry not before k
	i, j := 0, len(s.m)
	for i < j {
		h := (i + j) / 2
		if s.less(s.m[h].k, k) {
			i = h + 1
		} else {
			j = h
		}
	}
	return i
}
func (s *ordM) hi(k Key) int { // first entry after k
	i, j := 0, len(s.m)
	for i < j {
		h := (i + j) / 2
		if s.less(k, s.m[h].k) {
			j = h
		} else {
			i = h + 1
		}
	}
	return i
}

func (s *ordM) Ops(o []uint32) []uint32 {
	n := len(s.m)
	for g := 0; g <= n; g++ {
		if g > 0 && g < n && s.m[g-1].k == s.m[g].k {
			continue
		}
		if n < s.limit {
			o = append(o, opw(oInsGap, g))
		}
		if s.a.erase != nil && !s.light {
			o = append(o, opw(oEraseGap, g))
		}
		if s.a.eraseAll != nil && !s.light {
			o = append(o, opw(oEraseAllGap, g))
		}
	}
	for i := 0; i < n; i++ {
		if i == 0 || s.m[i].k != s.m[i-1].k {
			if !s.a.multi || n < s.limit && s.hi(s.m[i].k)-i < s.dups {
				o = append(o, opw(oInsDup, i))
			}
			if s.a.erase != nil {
				o = append(o, opw(oErase, i))
			}
			if s.a.eraseAll != nil {
				o = append(o, opw(oEraseAll, i))
			}
		}
		if s.a.eraseCur != nil {
			o = append(o, opw(oEraseCur, i))
		}
		if s.a.vals && !s.noset {
			o = append(o, opw(oSetVal, i))
		}
	}
	if s.a.eraseCur != nil {
		o = append(o, opw(oEraseEnd, 0))
	}
	if s.alg {
		for g := 0; g <= n && n < s.limit; g++ {
			o = append(o, opw(oUnion, g), opw(oUnionOf, g))
		}
		for i := 0; i < n; i++ {
			o = append(o, opw(oDiff, i), opw(oIntersect, i))
		}
		o = append(o, opw(oDiffOf, 0), opw(oSelf, 0))
	}
	return append(o, opw(oClear, 0), opw(oObs, 0))
}

func (s *ordM) Name(o uint32) string {
	k, a := unopw(o)
	f := map[int]string{oInsGap: "Insert(new key in gap %d)", oInsDup: "Insert(key of entry %d)", oErase: "Erase(key of entry %d)", oEraseGap: "Erase(absent key in gap %d)",
		oEraseAll: "EraseAll(key of entry %d)", oEraseAllGap: "EraseAll(absent key in gap %d)", oEraseCur: "erase entry %d through its handle", oSetVal: "set the value of entry %d",
		oUnion: "becomes its union with a new key in gap %d", oUnionOf: "becomes the union of a new key in gap %d with it", oDiff: "becomes its difference with entry %d",
		oIntersect: "becomes its intersection with all but entry %d, and an absent key"}[k]
	if f != "" {
		return fmt.Sprintf(f, a)
	}
	return map[int]string{oEraseEnd: "erase through an end iterator", oClear: "Clear", oObs: "observe", oDiffOf: "becomes the difference of an absent key with it", oSelf: "becomes its union with a set of the same keys"}[k]
}

// cursorAt returns a fresh cursor to entry i.
func (s *ordM) cursorAt(i int) cursor {
	n := len(s.m)
	// the first of its key is found by key, the others by walking
	j := s.lo(s.m[i].k)
	if n-1-i < i-j {
		c := s.a.lasts[0]()
		for x := n - 1; x > i; x-- {
			c = c.prev()
		}
		return c
	}
	c := s.a.find(s.m[i].k)
	for ; j < i; j++ {
		c = c.next()
	}
	return c
}

func (s *ordM) ins(k Key) error {
	v := s.next
	s.next++
	if !s.a.vals {
		v = 0
	}
	c0 := *s.a.cmps
	s.a.insert(k, v)
	c1 := *s.a.cmps
	i := s.hi(k)
	n := len(s.m)
	if !s.a.multi && i > 0 && s.m[i-1].k == k {
		s.m[i-1].v = v
	} else {
		s.m = insertAt(s.m, i, oent{k: k, v: v})
		if s.hold {
			h := s.cursorAt(i)
			if !h.valid() || h.key() != k || h.val() != v {
				return errf("the entry just inserted is not found")
			}
			s.m[i].h = h
		}
	}
	if s.costs {
		return s.cost("Insert", c1-c0, n)
	}
	return nil
}

func (s *ordM) cost(what string, got, n int) error {
	if l := bits.Len(uint(n + 1)); got > 8*l+12 {
		return errf("%s with %d entries took %d key comparisons", what, n, got)
	}
	return nil
}

// forget drops the handles of the entries i..j-1, which cannot be told apart any more.
func (s *ordM) forget(i, j int) {
	for ; i < j; i++ {
		s.m[i].h = nil
	}
}

func (s *ordM) Do(o uint32) error {
	k, a := unopw(o)
	switch k {
	case oInsGap:
		key, ok := s.gap(a)
		if !ok {
			break // out of float precision
		}
		if err := s.ins(key); err != nil {
			return err
		}
	case oInsDup:
		if err := s.ins(s.m[a].k); err != nil {
			return err
		}
	case oErase, oEraseAll:
		key := s.m[a].k
		i, j := s.lo(key), s.hi(key)
		if k == oErase {
			s.a.erase(key)
		} else {
			s.a.eraseAll(key)
		}
		if s.a.eraseOne && k == oErase {
			s.m = slices.Delete(s.m, i, i+1)
			s.forget(i, j-1)
		} else {
			s.m = slices.Delete(s.m, i, j)
		}
	case oEraseGap, oEraseAllGap:
		key, ok := s.gap(a)
		if !ok {
			break
		}
		if k == oEraseGap {
			s.a.erase(key)
		} else {
			s.a.eraseAll(key)
		}
	case oEraseCur:
		c := s.m[a].h
		if c == nil {
			c = s.cursorAt(a)
		}
		s.a.eraseCur(c)
		s.m = slices.Delete(s.m, a, a+1)
	case oEraseEnd:
		c := s.a.upper(1e300)
		if s.desc {
			c = s.a.upper(-1e300)
		}
		if c.valid() {
			return errf("the upper bound of a key beyond all others is valid")
		}
		s.a.eraseCur(c)
	case oSetVal:
		v := s.next
		s.next++
		c := s.m[a].h
		if c == nil {
			c = s.cursorAt(a)
		}
		c.set(v)
		s.m[a].v = v
	case oClear:
		s.a.clear()
		s.m = nil
	case oObs:
		return s.Check()
	case oUnion, oUnionOf:
		key, ok := s.gap(a)
		if !ok {
			break
		}
		s.a = s.a.alg(1, k == oUnionOf, []Key{key})
		s.m = insertAt(s.m, s.hi(key), oent{k: key})
	case oDiff:
		s.a = s.a.alg(2, false, []Key{s.m[a].k})
		s.m = slices.Delete(s.m, a, a+1)
	case oDiffOf:
		key, ok := s.gap(len(s.m) / 2)
		if !ok {
			break
		}
		s.a = s.a.alg(2, true, []Key{key})
		s.m = []oent{{k: key}}
	case oIntersect:
		var ks []Key
		for i, e := range s.m {
			if i != a {
				ks = append(ks, e.k)
			}
		}
		if key, ok := s.gap(a); ok {
			ks = append(ks, key)
		}
		s.a = s.a.alg(0, a%2 == 1, ks)
		s.m = slices.Delete(s.m, a, a+1)
	case oSelf:
		var ks []Key
		for _, e := range s.m {
			ks = append(ks, e.k)
		}
		s.a = s.a.alg(1, false, ks)
	}
	if s.light {
		if err := s.spot(); err != nil {
			return err
		}
	}
	return want("Size()", s.a.size(), len(s.m))
}

func (s *ordM) at(what string, c cursor, i int) error {
	n := len(s.m)
	if !c.valid() {
		if i < n && i >= 0 {
			return errf("%s designates nothing, want entry %d (%v)", what, i, s.m[i].k)
		}
		return nil
	}
	if i >= n || i < 0 {
		return errf("%s designates key %v, want nothing", what, c.key())
	}
	if c.key() != s.m[i].k || c.val() != s.m[i].v {
		return errf("%s designates %v:%v, want entry %d = %v:%v", what, c.key(), c.val(), i, s.m[i].k, s.m[i].v)
	}
	return nil
}

// query asks everything about one key.
func (s *ordM) query(k Key) error {
	i, j := s.lo(k), s.hi(k)
	n := len(s.m)
	ex := j > i
	fi := i
	if !ex {
		fi = n
	}
	c0 := *s.a.cmps
	cost := func(what string) error {
		c := *s.a.cmps - c0
		c0 = *s.a.cmps
		if s.costs {
			return s.cost(what, c, n)
		}
		return nil
	}
	c := s.a.find(k)
	e1 := cost("Find")
	cl := s.a.lower(k)
	e2 := cost("LowerBound")
	cu := s.a.upper(k)
	e3 := cost("UpperBound")
	if err := first(e1, e2, e3, s.at(fmt.Sprintf("Find(%v)", k), c, fi), s.at(fmt.Sprintf("LowerBound(%v)", k), cl, i), s.at(fmt.Sprintf("UpperBound(%v)", k), cu, j)); err != nil {
		return err
	}
	if s.a.get != nil {
		c0 = *s.a.cmps
		v, ok := s.a.get(k)
		if ok != ex || ok && v != s.m[i].v {
			return errf("Get(%v) = %v found=%v, want found=%v", k, v, ok, ex)
		}
		if !ok && v != 0 {
			return errf("Get(%v) of an absent key returns the value %v", k, v)
		}
		if err := cost("Get"); err != nil {
			return err
		}
	}
	if s.a.contains != nil {
		if err := first(want(fmt.Sprintf("Contains(%v)", k), s.a.contains(k), ex), cost("Contains")); err != nil {
			return err
		}
	}
	if s.a.count != nil {
		if err := want(fmt.Sprintf("Count(%v)", k), s.a.count(k), j-i); err != nil {
			return err
		}
	}
	return nil
}

// spot checks a few entries of a big container.
func (s *ordM) spot() error {
	n := len(s.m)
	if err := first(s.at("First()", s.a.firsts[0](), 0), s.at("Last()", s.a.lasts[0](), n-1)); err != nil {
		return err
	}
	if n == 0 {
		return nil
	}
	for _, i := range [...]int{0, n / 3, n / 2, n - 1, int(s.next*31) % n} {
		if err := s.query(s.m[i].k); err != nil {
			return err
		}
		if k, ok := s.gap(i); ok {
			if err := s.query(k); err != nil {
				return err
			}
		}
	}
	if s.rb && s.a.valid != nil {
		return s.a.valid()
	}
	return nil
}

func (s *ordM) Check() error {
	n := len(s.m)
	if err := want("Size()", s.a.size(), n); err != nil {
		return err
	}
	if s.a.empty != nil {
		if err := want("Empty()", s.a.empty(), n == 0); err != nil {
			return err
		}
	}
	for _, f := range s.a.firsts {
		i := 0
		for c := f(); c.valid(); c = c.next() {
			if err := s.at(fmt.Sprintf("step %d of the forward walk", i), c, i); err != nil {
				return err
			}
			i++
		}
		if err := want("entries met by the forward walk", i, n); err != nil {
			return err
		}
	}
	for _, f := range s.a.lasts {
		i := n - 1
		for c := f(); c.valid(); c = c.prev() {
			if err := s.at(fmt.Sprintf("step %d of the backward walk", n-1-i), c, i); err != nil {
				return err
			}
			i--
		}
		if err := want("entries met by the backward walk", n-1-i, n); err != nil {
			return err
		}
	}
	i := 0
	var err error
	s.a.traverse(func(k Key, v Val) bool {
		if err == nil && (i >= n || s.m[i].k != k || s.m[i].v != v) {
			err = errf("entry %d of the traversal is %v:%v", i, k, v)
		}
		i++
		return true
	})
	if err = first(err, want("entries traversed", i, n)); err != nil {
		return err
	}
	for i := range s.m {
		if i > 0 && s.m[i].k == s.m[i-1].k {
			continue
		}
		if err := s.query(s.m[i].k); err != nil {
			return err
		}
	}
	for g := 0; g <= n; g++ {
		if k, ok := s.gap(g); ok {
			if err := s.query(k); err != nil {
				return err
			}
		}
	}
	if s.a.str != nil {
		var b strings.Builder
		b.WriteString("[")
		for i, e := range s.m {
			if i > 0 {
				b.WriteString(" ")
			}
			fmt.Fprintf(&b, "%v", e.k)
		}
		b.WriteString("]")
		if err := want("String()", s.a.str(), b.String()); err != nil {
			return err
		}
	}
	if s.rb && s.a.valid != nil {
		if err := s.a.valid(); err != nil {
			return err
		}
	}
	if s.hold {
		for i, e := range s.m {
			if e.h == nil {
				continue
			}
			if err := s.at(fmt.Sprintf("the handle of entry %d", i), e.h, i); err != nil {
				return err
			}
			if !e.h.valid() {
				return errf("the handle of entry %d is invalid", i)
			}
			if err := first(s.at(fmt.Sprintf("the successor of the handle of entry %d", i), e.h.next(), i+1), s.at(fmt.Sprintf("the predecessor of the handle of entry %d", i), e.h.prev(), i-1)); err != nil {
				return err
			}
			for j, f := range s.m {
				if f.h != nil && e.h.same(f.h) != (i == j) {
					return errf("the handles of entries %d and %d compare equal: %v", i, j, i != j)
				}
			}
			// walking on from the handle reaches everything on that side
			c, j := e.h, i
			for ; c.valid(); c = c.next() {
				if err := s.at("walking on from a handle", c, j); err != nil {
					return err
				}
				j++
			}
			c, k := e.h, i
			for ; c.valid(); c = c.prev() {
				if err := s.at("walking back from a handle", c, k); err != nil {
					return err
				}
				k--
			}
			if j != n || k != -1 {
				return errf("walking from the handle of entry %d of %d reaches entries %d to %d", i, n, k+1, j-1)
			}
		}
	}
	if s.tall != nil {
		return s.tall.check(s)
	}
	return nil
}

func (s *ordM) State(h *snap.Hasher) {
	h.Int(len(s.m))
	for _, e := range s.m {
		h.Key(e.k)
		h.Val(e.v)
	}
	h.Graph(s.a.obj)
	if s.hold {
		for _, e := range s.m {
			h.Int(btoi(e.h != nil))
			if e.h != nil {
				switch c := e.h.(type) {
				case nodeCur:
					h.Graph(c.n)
				case treeIterCur:
					h.Graph(c.it)
				case mapCur:
					h.Graph(c.it)
				case setCur:
					h.Graph(c.it)
				}
			}
		}
	}
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ordPeriodic drives big containers.
func ordPeriodic(name string, mk func() *ordM, lu, ld, top, steps, every, long int) *core.Enum {
	g := func(name string, kind int, f func(m *ordM, k int) int) gen[*ordM] {
		return gen[*ordM]{name, func(m *ordM, k int) uint32 {
			n := len(m.m)
			if n == 0 {
				return opw(oInsGap, 0)
			}
			i := f(m, k)
			switch kind {
			case oInsGap:
				i = min(max(i, 0), n)
				if _, ok := m.gap(i); !ok { // a full or a closed gap
					i = m.hi(m.m[i].k)
					if _, ok := m.gap(i); !ok {
						i = n
					}
				}
			default:
				i = min(max(i, 0), n-1)
			}
			return opw(kind, i)
		}}
	}
	scat := func(m *ordM, k int) int { return k * 7919 % (len(m.m) + 1) }
	a := mk().a
	up := []gen[*ordM]{
		g("Insert(last)", oInsGap, func(m *ordM, k int) int { return len(m.m) }),
		g("Insert(first)", oInsGap, func(m *ordM, k int) int { return 0 }),
		g("Insert(half)", oInsGap, func(m *ordM, k int) int { return len(m.m) / 2 }),
		g("Insert(scattered)", oInsGap, scat),
		g("Insert(duplicate of half)", oInsDup, func(m *ordM, k int) int { return len(m.m) / 2 }),
	}
	er := oErase
	if a.eraseCur != nil {
		er = oEraseCur
	}
	down := []gen[*ordM]{
		g("erase(first)", er, func(m *ordM, k int) int { return 0 }),
		g("erase(last)", er, func(m *ordM, k int) int { return len(m.m) - 1 }),
		g("erase(half)", er, func(m *ordM, k int) int { return len(m.m) / 2 }),
		g("erase(scattered)", er, scat),
		g("Insert(scattered)", oInsGap, scat),
	}
	if long > 0 {
		return lives(name, mk, []gen[*ordM]{up[0], up[3]}, []gen[*ordM]{down[0], down[3]}, 3, long)
	}
	return periodic(name, mk, up, down, lu, ld, top, steps, every)
}

func init() {
	type kind struct {
		mk   func() *ordAd
		desc bool
	}
	bigger := func(c Ctx, name string, ks []kind, hold, rb, costs bool) []any {
		var out []any
		for i, k := range ks {
			out = append(out, ordPeriodic(fmt.Sprintf("%s periodic histories %d", name, i), func() *ordM {
				s := newOrd(k.mk, k.desc, 1<<20, 1<<20)
				s.light, s.rb, s.costs, s.hold = true, rb, costs, hold
				return s
			}, 2, c.Pick(1, 2), c.Pick(90, 200), c.Pick(200, 500), c.Pick(29, 53), 0))
			if i == 0 && !rb && !hold {
				out = append(out, ordPeriodic(name+" long lives", func() *ordM {
					s := newOrd(k.mk, k.desc, 1<<20, 1<<20)
					s.light = true
					return s
				}, 0, 0, 0, 0, 0, c.Pick(66000, 140000)))
			}
		}
		return out
	}
	trees := []kind{}
	for k := 0; k < 4; k++ {
		trees = append(trees, kind{func() *ordAd { return newTreeAd(cmpKind(k), false) }, k&1 == 1})
	}
	kinds := func(f func(kind cmpKind, safe bool) *ordAd) []kind {
		var out []kind
		for k := 0; k < 4; k++ {
			for s := 0; s < 2; s++ {
				out = append(out, kind{func() *ordAd { return f(cmpKind(k), s == 1) }, k&1 == 1})
			}
		}
		return out
	}
	spec := func(name string, ks []kind, limit, dups, depth, max int, set func(s *ordM)) *core.Spec {
		return &core.Spec{Name: name, Roots: len(ks), Depth: depth, Max: max, Root: func(r int) core.Machine {
			s := newOrd(ks[r].mk, ks[r].desc, limit, dups)
			if set != nil {
				set(s)
			}
			return s
		}}
	}
	builders["P09"] = func(c Ctx) []any {
		return append([]any{
			spec("distinct keys, all histories", trees[:2], c.Pick(15, 18), 1, 200, c.Pick(300000, 4000000), nil),
			spec("equal keys, all histories", trees, c.Pick(9, 11), c.Pick(9, 11), 100, c.Pick(300000, 4000000), nil),
			spec("few equal keys, all histories", trees[:1], c.Pick(10, 12), 2, 100, c.Pick(300000, 4000000), func(s *ordM) { s.noset = true }),
		}, bigger(c, "tree", trees[:2], false, false, false)...)
	}
	builders["P10"] = func(c Ctx) []any {
		rb := func(s *ordM) { s.rb, s.costs, s.noset, s.tall = true, true, true, newRbView() }
		parts := []any{
			spec("distinct keys, all histories", trees[:1], c.Pick(15, 18), 1, 200, c.Pick(300000, 4000000), rb),
			spec("equal keys, all histories", trees[:2], c.Pick(8, 10), c.Pick(8, 10), 100, c.Pick(300000, 4000000), rb),
		}
		parts = append(parts, bigger(c, "tree", trees[:2], false, true, true)...)
		deep := func(name string, k kind, top int) *core.Enum {
			return ordPeriodic(name, func() *ordM {
				s := newOrd(k.mk, k.desc, 1<<20, 1<<20)
				s.light, s.rb, s.costs = true, false, true
				return s
			}, 1, 1, top, 2*top, 1<<20, 0)
		}
		return append(parts, deep("large trees", trees[0], c.Pick(2000, 4000)), deep("large sets", kinds(newSetAd)[0], c.Pick(1000, 3000)), deep("large maps", kinds(newMapAd)[0], c.Pick(1000, 3000)),
			deep("large multimaps", kinds(newMultiMapAd)[0], c.Pick(500, 2000)))
	}
	builders["P11"] = func(c Ctx) []any {
		hold := func(s *ordM) { s.hold = true }
		iters := []kind{{func() *ordAd { return newTreeAd(0, true) }, false}}
		var parts []any
		add := func(name string, ks []kind, ld, le int) {
			parts = append(parts, spec(name+", distinct keys", ks[:1], ld, 1, 200, c.Pick(150000, 2000000), hold))
			if le > 0 {
				parts = append(parts, spec(name+", equal keys", ks[:1], le, le, 200, c.Pick(150000, 2000000), hold))
			}
			parts = append(parts, bigger(c, name, ks[:1], true, false, false)...)
		}
		add("tree nodes", trees, c.Pick(13, 16), c.Pick(8, 10))
		add("tree iterators", append(iters, trees[1]), c.Pick(11, 14), c.Pick(6, 8))
		add("map iterators", kinds(newMapAd), c.Pick(13, 16), 0)
		add("multimap iterators", kinds(newMultiMapAd), c.Pick(11, 13), c.Pick(7, 9))
		add("set iterators", kinds(newSetAd), c.Pick(13, 16), 0)
		add("multiset iterators", kinds(newMultiSetAd), c.Pick(11, 13), c.Pick(6, 8))
		return parts
	}
	std := func(name string, f func(kind cmpKind, safe bool) *ordAd, multi bool) func(c Ctx) []any {
		return func(c Ctx) []any {
			ks := kinds(f)
			dups := 1
			parts := []any{}
			if multi {
				dups = c.Pick(7, 9)
				parts = append(parts, spec(name+", few equal keys, all histories", ks[:1], c.Pick(9, 11), 2, 200, c.Pick(200000, 3000000), func(s *ordM) { s.noset = true }))
			}
			lim := c.Pick(10, 12)
			if multi {
				lim = c.Pick(7, 9)
			}
			parts = append(parts, spec(name+", all histories", ks, lim, dups, 200, c.Pick(300000, 4000000), nil),
				spec(name+", more entries", ks[:1], c.Pick(13, 16), 1, 200, c.Pick(300000, 4000000), nil))
			return append(parts, bigger(c, name, ks[:3], false, false, false)...)
		}
	}
	builders["P12"] = std("map", newMapAd, false)
	builders["P13"] = std("multimap", newMultiMapAd, true)
	set1, set2 := std("set", newSetAd, false), std("multiset", newMultiSetAd, true)
	builders["P14"] = func(c Ctx) []any {
		alg := spec("results of set operations, all histories", kinds(newSetAd), c.Pick(7, 9), 1, 200, c.Pick(300000, 4000000), func(s *ordM) { s.alg = true })
		return append(append(set1(c), alg), set2(c)...)
	}
}
