package conc

import (
	"fmt"
	"runtime"
	"slices"
	"sort"
	"strings"

	"github.com/liyue201/gostl/algorithm/hash"
	bloom "github.com/liyue201/gostl/ds/bloomfilter"
	"github.com/liyue201/gostl/ds/hamt"
	"github.com/liyue201/gostl/ds/ketama"
	"github.com/liyue201/gostl/ds/list/bidlist"
	treemap "github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/priorityqueue"
	"github.com/liyue201/gostl/ds/queue"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/ds/skiplist"
	"github.com/liyue201/gostl/ds/stack"
	"verifmc/vrand"
	"verifmc/vsched"
)

// operation codes
const (
	oInsert = iota + 1
	oErase
	oEraseAll
	oEraseHandle
	oGet
	oContains
	oCount
	oFind
	oLower
	oUpper
	oBegin
	oFirst
	oLast
	oClear
	oSize
	oEmpty
	oTrav
	oTrav2 // stops after two
	oString
	oKeys
	oStrKeys
	oInter
	oUnion
	oDiff
	oPush
	oPop
	oFront
	oBack
	oData
	oTravPanic // the visitor panics at visit A
	oOtherIns  // on the second container
	oOtherErase
	oOtherClear
	oOtherInter
	oOtherUnion
	oOtherDiff
	oSelfInter
	oSelfUnion
	oSelfDiff
	oFill     // refill an empty one
	oEraseNil // EraseIter of a nil iterator
	oNilInter // set operations with a nil set
	oNilUnion
	oNilDiff
)

var opNames = map[int]string{oInsert: "Insert", oErase: "Erase", oEraseAll: "EraseAll", oEraseHandle: "EraseIter", oGet: "Get", oContains: "Contains", oCount: "Count", oFind: "Find", oLower: "LowerBound", oUpper: "UpperBound",
	oBegin: "Begin", oFirst: "First", oLast: "Last", oClear: "Clear", oSize: "Size", oEmpty: "Empty", oTrav: "Traversal", oTrav2: "Traversal until 2", oString: "String", oKeys: "Keys", oStrKeys: "StringKeys",
	oInter: "A.Intersect(B)", oUnion: "A.Union(B)", oDiff: "A.Diff(B)", oPush: "Push", oPop: "Pop", oFront: "Front", oBack: "Back", oData: "Data", oTravPanic: "Traversal with a visitor panicking at visit",
	oOtherIns: "B.Insert", oOtherErase: "B.Erase", oOtherClear: "B.Clear", oOtherInter: "B.Intersect(A)", oOtherUnion: "B.Union(A)", oOtherDiff: "B.Diff(A)", oSelfInter: "A.Intersect(A)", oSelfUnion: "A.Union(A)", oSelfDiff: "A.Diff(A)",
	oEraseNil: "EraseIter(nil iterator)", oNilInter: "A.Intersect(nil)", oNilUnion: "A.Union(nil)", oNilDiff: "A.Diff(nil)"}

func mk(code int, args ...int) (ops []Op) {
	ev := 1
	switch code {
	case oInter, oUnion, oDiff, oOtherInter, oOtherUnion, oOtherDiff, oSelfInter, oSelfUnion, oSelfDiff:
		ev = 2
	}
	mut := false
	switch code {
	case oInsert, oErase, oEraseAll, oEraseHandle, oClear, oPush, oPop, oOtherIns, oOtherErase, oOtherClear:
		mut = true
	}
	if len(args) == 0 {
		return []Op{{Code: code, Name: opNames[code] + "()", Events: ev, Mut: mut}}
	}
	for _, a := range args {
		ops = append(ops, Op{Code: code, A: a, Name: fmt.Sprintf("%s(%d)", opNames[code], a), Events: ev, Mut: mut})
	}
	return ops
}

func list(l ...[]Op) (o []Op) {
	for _, x := range l {
		o = append(o, x...)
	}
	return o
}

// indices of the operations with these codes (and arguments below 3)
func core_(ops []Op, codes ...int) (ix []int) {
	for i, o := range ops {
		if slices.Contains(codes, o.Code) && o.A <= 2 {
			ix = append(ix, i)
		}
	}
	return ix
}

func okv(v int, ok bool) string {
	if !ok {
		return "none"
	}
	return fmt.Sprint(v)
}

// ---- queues and stacks ----

type seqModel struct {
	s     []int
	stack bool
}

func (m *seqModel) Clone() Model  { return &seqModel{slices.Clone(m.s), m.stack} }
func (m *seqModel) Final() string { return fmt.Sprint(m.s) }
func (m *seqModel) Apply(o *Op, ev int, part string) string {
	n := len(m.s)
	at := func(i int) string {
		if n == 0 {
			return "panic"
		}
		return fmt.Sprint(m.s[i])
	}
	switch o.Code {
	case oPush:
		m.s = append(m.s, o.V)
	case oPop:
		if n == 0 {
			return "panic"
		}
		i := 0
		if m.stack {
			i = n - 1
		}
		r := at(i)
		m.s = slices.Delete(m.s, i, i+1)
		return r
	case oFront:
		if m.stack {
			return at(n - 1)
		}
		return at(0)
	case oBack:
		return at(n - 1)
	case oSize:
		return fmt.Sprint(n)
	case oEmpty:
		return fmt.Sprint(n == 0)
	case oClear:
		m.s = nil
	case oString:
		return fmt.Sprint(m.s)
	}
	return ""
}

func drain(pop func() int, size func() int) string {
	var s []int
	n := size()
	for i := 0; i < n; i++ {
		s = append(s, pop())
	}
	if size() != 0 {
		return "not empty after popping everything"
	}
	return fmt.Sprint(s)
}

func seqKinds() []*Kind {
	var ks []*Kind
	qops := list(mk(oPush), mk(oPop), mk(oFront), mk(oBack), mk(oSize), mk(oEmpty), mk(oClear), mk(oString))
	sops := list(mk(oPush), mk(oPop), mk(oFront), mk(oSize), mk(oEmpty), mk(oClear), mk(oString))
	fill := []int{0, 1, 2, 3}
	for c := 0; c < 3; c++ {
		cn := []string{"deque", "list", "own list"}[c]
		ks = append(ks, &Kind{Name: "queue over " + cn, Inits: 4, Ops: qops, Core: core_(qops, oPush, oPop, oBack, oSize, oClear), Mk: func(init int) *SUT {
			o := safe(queue.WithGoroutineSafe[int]())
			switch c {
			case 1:
				o = append(o, queue.WithListContainer[int]())
			case 2:
				o = safe(queue.WithGoroutineSafe[int](), queue.WithContainer[int](bidlist.New[int]()))
			}
			q := queue.New[int](o...)
			for i := 0; i < fill[init]; i++ {
				q.Push(i)
			}
			return &SUT{Do: func(o *Op) (string, func() string) {
				switch o.Code {
				case oPush:
					q.Push(o.V)
				case oPop:
					return fmt.Sprint(q.Pop()), nil
				case oFront:
					return fmt.Sprint(q.Front()), nil
				case oBack:
					return fmt.Sprint(q.Back()), nil
				case oSize:
					return fmt.Sprint(q.Size()), nil
				case oEmpty:
					return fmt.Sprint(q.Empty()), nil
				case oClear:
					q.Clear()
				case oString:
					return q.String(), nil
				}
				return "", nil
			}, Final: func() string { return drain(q.Pop, q.Size) }}
		}, Model: func(init int) Model {
			m := &seqModel{}
			for i := 0; i < fill[init]; i++ {
				m.s = append(m.s, i)
			}
			return m
		}})
		ks = append(ks, &Kind{Name: "stack over " + cn, Inits: 4, Ops: sops, Core: core_(sops, oPush, oPop, oFront, oSize, oClear), Mk: func(init int) *SUT {
			o := safe(stack.WithGoroutineSafe[int]())
			switch c {
			case 1:
				o = append(o, stack.WithListContainer[int]())
			case 2:
				o = safe(stack.WithGoroutineSafe[int](), stack.WithContainer[int](bidlist.New[int]()))
			}
			q := stack.New[int](o...)
			for i := 0; i < fill[init]; i++ {
				q.Push(i)
			}
			return &SUT{Do: func(o *Op) (string, func() string) {
				switch o.Code {
				case oPush:
					q.Push(o.V)
				case oPop:
					return fmt.Sprint(q.Pop()), nil
				case oFront:
					return fmt.Sprint(q.Top()), nil
				case oSize:
					return fmt.Sprint(q.Size()), nil
				case oEmpty:
					return fmt.Sprint(q.Empty()), nil
				case oClear:
					q.Clear()
				case oString:
					return q.String(), nil
				}
				return "", nil
			}, Final: func() string {
				s := drain(q.Pop, q.Size)
				return s
			}}
		}, Model: func(init int) Model {
			m := &stackModel{seqModel{stack: true}}
			for i := 0; i < fill[init]; i++ {
				m.s = append(m.s, i)
			}
			return m
		}})
	}
	pops := list(mk(oPush, 0, 1, 2), mk(oPop), mk(oFront), mk(oSize), mk(oEmpty), mk(oClear))
	ks = append(ks, &Kind{Name: "priority queue", Inits: 4, Ops: pops, Core: core_(pops, oPush, oPop, oFront, oSize, oClear), Mk: func(init int) *SUT {
		q := priorityqueue.New[pe](func(a, b pe) int { return compare(a.p, b.p) }, safe(priorityqueue.WithGoroutineSafe())...)
		for i, p := range pqInit(init) {
			q.Push(pe{p, i})
		}
		return &SUT{Do: func(o *Op) (string, func() string) {
			switch o.Code {
			case oPush:
				q.Push(pe{o.A, o.V})
			case oPop:
				return fmt.Sprint(q.Pop()), nil
			case oFront:
				return fmt.Sprint(q.Top()), nil
			case oSize:
				return fmt.Sprint(q.Size()), nil
			case oEmpty:
				return fmt.Sprint(q.Empty()), nil
			case oClear:
				q.Clear()
			}
			return "", nil
		}, Final: func() string {
			var s []pe
			for n := q.Size(); n > 0; n-- {
				s = append(s, q.Pop())
			}
			return fmt.Sprint(s, q.Empty())
		}}
	}, Model: func(init int) Model {
		m := &pqModel{}
		for i, p := range pqInit(init) {
			m.push(pe{p, i})
		}
		return m
	}})
	return ks
}

// stackModel drains from the top.
type stackModel struct{ seqModel }

func (m *stackModel) Clone() Model { return &stackModel{seqModel{slices.Clone(m.s), true}} }
func (m *stackModel) Final() string {
	r := slices.Clone(m.s)
	slices.Reverse(r)
	return fmt.Sprint(r)
}

type pe struct{ p, v int }

func pqInit(init int) []int { return [][]int{nil, {1}, {1, 1}, {2, 0, 1}}[init] }

type pqModel struct{ s []pe } // in order of priority, then of pushes

func (m *pqModel) push(e pe) {
	i := sort.Search(len(m.s), func(i int) bool { return m.s[i].p > e.p })
	m.s = slices.Insert(m.s, i, e)
}
func (m *pqModel) Clone() Model  { return &pqModel{slices.Clone(m.s)} }
func (m *pqModel) Final() string { return fmt.Sprint(m.s, true) }
func (m *pqModel) Apply(o *Op, ev int, part string) string {
	switch o.Code {
	case oPush:
		m.push(pe{o.A, o.V})
	case oPop, oFront:
		if len(m.s) == 0 {
			return "panic"
		}
		r := fmt.Sprint(m.s[0])
		if o.Code == oPop {
			m.s = slices.Delete(m.s, 0, 1)
		}
		return r
	case oSize:
		return fmt.Sprint(len(m.s))
	case oEmpty:
		return fmt.Sprint(len(m.s) == 0)
	case oClear:
		m.s = nil
	}
	return ""
}

// ---- ordered containers, skip list, trie ----

type ent struct{ k, v int }

// flavours
const (
	fMap = iota
	fMultiMap
	fSet
	fMultiSet
	fSkip
	fHamt
	fTwoSets
)

type ordModel struct {
	f int
	e [2][]ent
	h bool // there is an iterator of element 2
}

func (m *ordModel) Clone() Model {
	return &ordModel{m.f, [2][]ent{slices.Clone(m.e[0]), slices.Clone(m.e[1])}, m.h}
}
func (m *ordModel) vals() bool {
	return m.f == fMap || m.f == fMultiMap || m.f == fSkip || m.f == fHamt
}
func (m *ordModel) show(w int) string {
	if m.vals() {
		return fmt.Sprint(m.e[w])
	}
	return fmt.Sprint(m.keys(w))
}
func (m *ordModel) keys(w int) []int {
	ks := []int{}
	for _, e := range m.e[w] {
		ks = append(ks, e.k)
	}
	return ks
}
func (m *ordModel) Final() string {
	s := m.show(0) + fmt.Sprint(len(m.e[0]))
	if m.f == fTwoSets {
		s += m.show(1) + fmt.Sprint(len(m.e[1]))
	}
	return s
}
func (m *ordModel) multi() bool { return m.f == fMultiMap || m.f == fMultiSet }
func (m *ordModel) lo(w, k int) int {
	return sort.Search(len(m.e[w]), func(i int) bool { return m.e[w][i].k >= k })
}
func (m *ordModel) hi(w, k int) int {
	return sort.Search(len(m.e[w]), func(i int) bool { return m.e[w][i].k > k })
}
func (m *ordModel) insert(w, k, v int) {
	i, j := m.lo(w, k), m.hi(w, k)
	if m.f == fSet || m.f == fMultiSet || m.f == fTwoSets {
		v = 0
	}
	if i < j && !m.multi() {
		m.e[w][i].v = v
		return
	}
	m.e[w] = slices.Insert(m.e[w], j, ent{k, v})
}
func combine(code int, a, b []int) []int {
	r := []int{}
	switch code {
	case oInter, oOtherInter, oSelfInter:
		for _, x := range a {
			if slices.Contains(b, x) {
				r = append(r, x)
			}
		}
	case oUnion, oOtherUnion, oSelfUnion:
		r = append(append(r, a...), b...)
		slices.Sort(r)
		r = slices.Compact(r)
	default:
		for _, x := range a {
			if !slices.Contains(b, x) {
				r = append(r, x)
			}
		}
	}
	return r
}
func parse(s string) (r []int) {
	for _, f := range strings.Fields(strings.Trim(s, "[]")) {
		x := 0
		fmt.Sscan(f, &x)
		r = append(r, x)
	}
	return r
}

func (m *ordModel) Apply(o *Op, ev int, part string) string {
	at := func(i int) string {
		if i >= 0 && i < len(m.e[0]) {
			return fmt.Sprint(m.e[0][i].k)
		}
		return "none"
	}
	i, j := m.lo(0, o.A), m.hi(0, o.A)
	switch o.Code {
	case oInsert:
		m.insert(0, o.A, o.V)
	case oErase:
		n := j
		if m.f == fMultiSet && i < j {
			n = i + 1
		}
		m.e[0] = slices.Delete(m.e[0], i, n)
		if m.f == fSkip || m.f == fHamt {
			return fmt.Sprint(i < j)
		}
	case oEraseHandle:
		if m.h {
			m.e[0] = slices.Delete(m.e[0], i, j)
		}
	case oEraseAll:
		m.e[0] = slices.Delete(m.e[0], i, j)
	case oGet:
		if i < j {
			return fmt.Sprint(m.e[0][i].v)
		}
		return "none"
	case oContains:
		return fmt.Sprint(i < j)
	case oCount:
		return fmt.Sprint(j - i)
	case oFind:
		if i < j {
			return at(i)
		}
		return "none"
	case oLower:
		return at(i)
	case oUpper:
		return at(j)
	case oBegin, oFirst:
		return at(0)
	case oLast:
		return at(len(m.e[0]) - 1)
	case oClear:
		m.e[0] = nil
	case oSize:
		return fmt.Sprint(len(m.e[0]))
	case oTrav, oString:
		return m.show(0)
	case oTrav2:
		c := &ordModel{f: m.f}
		c.e[0] = m.e[0][:min(2, len(m.e[0]))]
		return c.show(0)
	case oTravPanic:
		if len(m.e[0]) >= o.A {
			return "panic visitor"
		}
		return m.show(0)
	case oKeys, oStrKeys:
		return fmt.Sprint(m.keys(0))
	case oOtherIns:
		m.insert(1, o.A, 0)
	case oOtherErase:
		m.e[1] = slices.Delete(m.e[1], m.lo(1, o.A), m.hi(1, o.A))
	case oOtherClear:
		m.e[1] = nil
	case oInter, oUnion, oDiff, oOtherInter, oOtherUnion, oOtherDiff, oSelfInter, oSelfUnion, oSelfDiff:
		a, b := 0, 1
		switch o.Code {
		case oOtherInter, oOtherUnion, oOtherDiff:
			a, b = 1, 0
		case oSelfInter, oSelfUnion, oSelfDiff:
			b = 0
		}
		switch ev {
		case 0:
			return fmt.Sprint(m.keys(a))
		case 1:
			return fmt.Sprint(m.keys(b))
		}
		p := strings.SplitN(part, "\x00", 2)
		return fmt.Sprint(combine(o.Code, parse(p[0]), parse(p[1])))
	}
	return ""
}

var ordInits = [][]int{{}, {2}, {1, 2, 3}, {0, 1, 2, 3, 4, 6}}
var multiInits = [][]int{{}, {2, 2}, {1, 2, 2, 3}, {0, 1, 1, 2, 2, 2, 4}}

func initOf(f, init int) []int {
	if f == fMultiMap || f == fMultiSet {
		return multiInits[init]
	}
	return ordInits[init]
}

func ordModelOf(f int) func(init int) Model {
	return func(init int) Model {
		m := &ordModel{f: f}
		for i, k := range initOf(f, init) {
			m.insert(0, k, i)
			m.h = m.h || k == 2
		}
		if f == fTwoSets {
			for _, k := range twoInits[init] {
				m.insert(1, k, 0)
			}
		}
		return m
	}
}

var twoInits = [][]int{{1, 2}, {}, {2, 4}, {1, 2, 3, 5, 6}}

// cursor is what iterators of maps and sets have in common.
type validKey interface {
	IsValid() bool
}

func keyOf[I interface {
	validKey
}](it I, key func() int) string {
	exact := vsched.Settled()
	defer vsched.Go(vsched.Hold())
	if !it.IsValid() {
		return "none"
	}
	if vsched.Race || !exact { // looking at the element is not part of the call: it may be gone by now
		return "valid"
	}
	return fmt.Sprint(key())
}

// arm makes the comparators called by a thread panic at the given comparison from now on (0: never).
var arm [vsched.MaxThreads]int

// compare is the comparator of all ordered containers.
func compare(a, b int) int {
	if t := vsched.Me(); t >= 0 && arm[t] > 0 {
		arm[t]--
		if arm[t] == 0 {
			panic(boom("comparator"))
		}
	}
	look()
	return a - b
}

// safe are the options of a container under test.
func safe[O any](opt O, more ...O) []O {
	if unsafe {
		return more
	}
	if reuse != nil {
		t := fmt.Sprintf("%T", opt)
		if reuse[t] == nil {
			reuse[t] = opt
		}
		opt = reuse[t].(O)
	}
	return append([]O{opt}, more...)
}

// reuse are options used for several containers; nil if each gets one of its own.
var reuse map[string]any

// neighbour is a container that comparators and visitors of another one look into, once in a call.
var (
	neighbour *SUT
	nbOps     []*Op
	looked    [vsched.MaxThreads]bool
)

func look() {
	if neighbour == nil {
		return
	}
	if t := vsched.Me(); t >= 0 && !looked[t] {
		looked[t] = true
		for _, o := range nbOps {
			neighbour.Do(o)
		}
	}
}

// beside makes kinds whose comparators and visitors use another container of the kind, made with the same options.
func beside(ks []*Kind) (x []*Kind) {
	for _, k := range ks {
		var ops []*Op
		for _, codes := range [][]int{{oSize, oEmpty, oGet, oContains}, {oInsert, oPush}} {
			for _, c := range codes {
				if i := slices.IndexFunc(k.Ops, func(o Op) bool { return o.Code == c }); i >= 0 {
					ops = append(ops, &k.Ops[i])
					break
				}
			}
		}
		b := *k
		b.Name += ", its comparator and visitors use another one made with the same options"
		b.Mk = func(init int) *SUT {
			neighbour, reuse = nil, map[string]any{}
			defer func() { reuse = nil }()
			s := k.Mk(init)
			n := k.Mk(init)
			nbOps, neighbour = ops, n
			return s
		}
		x = append(x, &b)
	}
	return x
}

func visitors(trav func(f func(k, v int) bool), vals bool) func(o *Op) string {
	return func(o *Op) string {
		var es []ent
		ks := []int{}
		n := 0
		trav(func(k, v int) bool {
			look()
			n++
			if o.Code == oTravPanic && n == o.A {
				panic(boom("visitor"))
			}
			es = append(es, ent{k, v})
			ks = append(ks, k)
			return !(o.Code == oTrav2 && n == 2)
		})
		if vals {
			return fmt.Sprint(es)
		}
		return fmt.Sprint(ks)
	}
}

// careless is a call with an argument it need not put up with.
func careless(f func()) {
	defer func() {
		switch v := recover().(type) {
		case nil, runtime.Error:
		default:
			panic(v)
		}
	}()
	f()
}

func mapSUT(init int) *SUT {
	m := treemap.New[int, int](compare, safe(treemap.WithGoroutineSafe())...)
	for i, k := range ordInits[init] {
		m.Insert(k, i)
	}
	h := m.Find(2)
	tr := visitors(func(f func(k, v int) bool) { m.Traversal(f) }, true)
	return &SUT{Do: func(o *Op) (string, func() string) {
		switch o.Code {
		case oInsert:
			m.Insert(o.A, o.V)
		case oErase:
			m.Erase(o.A)
		case oEraseHandle:
			m.EraseIter(h)
		case oEraseNil:
			careless(func() { m.EraseIter((*treemap.MapIterator[int, int])(nil)) })
		case oGet:
			v, err := m.Get(o.A)
			return okv(v, err == nil), nil
		case oContains:
			return fmt.Sprint(m.Contains(o.A)), nil
		case oFind:
			it := m.Find(o.A)
			return keyOf(it, func() int { return it.Key() }), nil
		case oLower:
			it := m.LowerBound(o.A)
			return keyOf(it, func() int { return it.Key() }), nil
		case oUpper:
			it := m.UpperBound(o.A)
			return keyOf(it, func() int { return it.Key() }), nil
		case oBegin:
			it := m.Begin()
			return keyOf(it, func() int { return it.Key() }), nil
		case oFirst:
			it := m.First()
			return keyOf(it, func() int { return it.Key() }), nil
		case oLast:
			it := m.Last()
			return keyOf(it, func() int { return it.Key() }), nil
		case oClear:
			m.Clear()
		case oSize:
			return fmt.Sprint(m.Size()), nil
		case oTrav, oTrav2, oTravPanic:
			return tr(o), nil
		}
		return "", nil
	}, Final: func() string { return tr(&Op{}) + fmt.Sprint(m.Size()) }}
}

func multiMapSUT(init int) *SUT {
	m := treemap.NewMultiMap[int, int](compare, safe(treemap.WithGoroutineSafe())...)
	for i, k := range multiInits[init] {
		m.Insert(k, i)
	}
	tr := visitors(func(f func(k, v int) bool) { m.Traversal(f) }, true)
	return &SUT{Do: func(o *Op) (string, func() string) {
		switch o.Code {
		case oInsert:
			m.Insert(o.A, o.V)
		case oErase:
			m.Erase(o.A)
		case oGet:
			v, err := m.Get(o.A)
			return okv(v, err == nil), nil
		case oContains:
			return fmt.Sprint(m.Contains(o.A)), nil
		case oFind:
			it := m.Find(o.A)
			return keyOf(it, func() int { return it.Key() }), nil
		case oLower:
			it := m.LowerBound(o.A)
			return keyOf(it, func() int { return it.Key() }), nil
		case oUpper:
			it := m.UpperBound(o.A)
			return keyOf(it, func() int { return it.Key() }), nil
		case oBegin:
			it := m.Begin()
			return keyOf(it, func() int { return it.Key() }), nil
		case oFirst:
			it := m.First()
			return keyOf(it, func() int { return it.Key() }), nil
		case oLast:
			it := m.Last()
			return keyOf(it, func() int { return it.Key() }), nil
		case oClear:
			m.Clear()
		case oSize:
			return fmt.Sprint(m.Size()), nil
		case oTrav, oTrav2, oTravPanic:
			return tr(o), nil
		}
		return "", nil
	}, Final: func() string { return tr(&Op{}) + fmt.Sprint(m.Size()) }}
}

func setKeys(s *set.Set[int]) string {
	ks := []int{}
	s.Traversal(func(k int) bool { ks = append(ks, k); return true })
	return fmt.Sprint(ks)
}

func setSUT(two bool) func(init int) *SUT {
	return func(init int) *SUT {
		m := set.New[int](compare, safe(set.WithGoroutineSafe())...)
		for _, k := range ordInits[init] {
			m.Insert(k)
		}
		var b *set.Set[int]
		if two {
			b = set.New[int](compare, safe(set.WithGoroutineSafe())...)
			for _, k := range twoInits[init] {
				b.Insert(k)
			}
		}
		tr := visitors(func(f func(k, v int) bool) { m.Traversal(func(k int) bool { return f(k, 0) }) }, false)
		late := func(r *set.Set[int]) (string, func() string) { return "", func() string { return setKeys(r) } }
		return &SUT{Do: func(o *Op) (string, func() string) {
			switch o.Code {
			case oInsert:
				m.Insert(o.A)
			case oErase:
				m.Erase(o.A)
			case oContains:
				return fmt.Sprint(m.Contains(o.A)), nil
			case oFind:
				it := m.Find(o.A)
				return keyOf(it, func() int { return it.Value() }), nil
			case oLower:
				it := m.LowerBound(o.A)
				return keyOf(it, func() int { return it.Value() }), nil
			case oUpper:
				it := m.UpperBound(o.A)
				return keyOf(it, func() int { return it.Value() }), nil
			case oBegin:
				it := m.Begin()
				return keyOf(it, func() int { return it.Value() }), nil
			case oFirst:
				it := m.First()
				return keyOf(it, func() int { return it.Value() }), nil
			case oLast:
				it := m.Last()
				return keyOf(it, func() int { return it.Value() }), nil
			case oClear:
				m.Clear()
			case oSize:
				return fmt.Sprint(m.Size()), nil
			case oTrav, oTrav2, oTravPanic:
				return tr(o), nil
			case oString:
				return m.String(), nil
			case oOtherIns:
				b.Insert(o.A)
			case oOtherErase:
				b.Erase(o.A)
			case oOtherClear:
				b.Clear()
			case oInter:
				return late(m.Intersect(b))
			case oUnion:
				return late(m.Union(b))
			case oDiff:
				return late(m.Diff(b))
			case oOtherInter:
				return late(b.Intersect(m))
			case oOtherUnion:
				return late(b.Union(m))
			case oOtherDiff:
				return late(b.Diff(m))
			case oNilInter:
				careless(func() { m.Intersect(nil) })
			case oNilUnion:
				careless(func() { m.Union(nil) })
			case oNilDiff:
				careless(func() { m.Diff(nil) })
			case oSelfInter:
				return late(m.Intersect(m))
			case oSelfUnion:
				return late(m.Union(m))
			case oSelfDiff:
				return late(m.Diff(m))
			}
			return "", nil
		}, Final: func() string {
			s := setKeys(m) + fmt.Sprint(m.Size())
			if two {
				s += setKeys(b) + fmt.Sprint(b.Size())
			}
			return s
		}}
	}
}

func multiSetSUT(init int) *SUT {
	m := set.NewMultiSet[int](compare, safe(set.WithGoroutineSafe())...)
	for _, k := range multiInits[init] {
		m.Insert(k)
	}
	tr := visitors(func(f func(k, v int) bool) { m.Traversal(func(k int) bool { return f(k, 0) }) }, false)
	return &SUT{Do: func(o *Op) (string, func() string) {
		switch o.Code {
		case oInsert:
			m.Insert(o.A)
		case oErase:
			m.Erase(o.A)
		case oEraseAll:
			m.EraseAll(o.A)
		case oContains:
			return fmt.Sprint(m.Contains(o.A)), nil
		case oCount:
			return fmt.Sprint(m.Count(o.A)), nil
		case oFind:
			it := m.Find(o.A)
			return keyOf(it, func() int { return it.Value() }), nil
		case oLower:
			it := m.LowerBound(o.A)
			return keyOf(it, func() int { return it.Value() }), nil
		case oUpper:
			it := m.UpperBound(o.A)
			return keyOf(it, func() int { return it.Value() }), nil
		case oBegin:
			it := m.Begin()
			return keyOf(it, func() int { return it.Value() }), nil
		case oFirst:
			it := m.First()
			return keyOf(it, func() int { return it.Value() }), nil
		case oLast:
			it := m.Last()
			return keyOf(it, func() int { return it.Value() }), nil
		case oClear:
			m.Clear()
		case oSize:
			return fmt.Sprint(m.Size()), nil
		case oTrav, oTrav2, oTravPanic:
			return tr(o), nil
		case oString:
			return m.String(), nil
		}
		return "", nil
	}, Final: func() string { return tr(&Op{}) + fmt.Sprint(m.Size()) }}
}

func skipSUT(tall int) func(init int) *SUT {
	return func(init int) *SUT {
		var src *vrand.Chosen
		vrand.OnNew(func(c *vrand.Chosen) { src = c })
		m := skiplist.New[int, int](compare, safe(skiplist.WithGoroutineSafe(), skiplist.WithMaxLevel(3))...)
		level := func(j int) {
			if src != nil {
				src.Choose(1<<uint(3-j) - 1)
			}
		}
		for i, k := range ordInits[init] {
			level(1 + i%3)
			m.Insert(k, i)
		}
		level(tall)
		tr := visitors(func(f func(k, v int) bool) { m.Traversal(f) }, true)
		return &SUT{Do: func(o *Op) (string, func() string) {
			switch o.Code {
			case oInsert:
				m.Insert(o.A, o.V)
			case oErase:
				return fmt.Sprint(m.Remove(o.A)), nil
			case oGet:
				v, err := m.Get(o.A)
				return okv(v, err == nil), nil
			case oSize:
				return fmt.Sprint(m.Len()), nil
			case oTrav, oTrav2, oTravPanic:
				return tr(o), nil
			case oKeys:
				ks := m.Keys()
				if ks == nil {
					ks = []int{}
				}
				return fmt.Sprint(ks), nil
			}
			return "", nil
		}, Final: func() string { return tr(&Op{}) + fmt.Sprint(m.Len()) }}
	}
}

// hamtPools: keys of the trie by number
var hamtPools [2][7]string

func hamtSUT(pool int) func(init int) *SUT {
	num := map[string]int{}
	for i, k := range hamtPools[pool] {
		num[k] = i
	}
	return func(init int) *SUT {
		ks := &hamtPools[pool]
		m := hamt.New[int](safe(hamt.WithGoroutineSafe())...)
		for i, k := range ordInits[init] {
			m.Insert([]byte(ks[k]), i)
		}
		all := func(o *Op) string {
			var es []ent
			n := 0
			m.Traversal(func(k hamt.Key, v int) bool {
				n++
				if o.Code == oTravPanic && n == o.A {
					panic(boom("visitor"))
				}
				x, ok := num[string(k)]
				if !ok {
					x = -1
				}
				es = append(es, ent{x, v})
				return true
			})
			slices.SortFunc(es, func(a, b ent) int { return a.k - b.k })
			return fmt.Sprint(es)
		}
		names := func(l []string) string {
			r := []int{}
			for _, k := range l {
				x, ok := num[k]
				if !ok {
					x = -1
				}
				r = append(r, x)
			}
			slices.Sort(r)
			return fmt.Sprint(r)
		}
		return &SUT{Do: func(o *Op) (string, func() string) {
			switch o.Code {
			case oInsert:
				m.Insert([]byte(ks[o.A]), o.V)
			case oErase:
				return fmt.Sprint(m.Erase([]byte(ks[o.A]))), nil
			case oGet:
				v, err := m.Get([]byte(ks[o.A]))
				return okv(v, err == nil), nil
			case oTrav, oTravPanic:
				return all(o), nil
			case oKeys:
				var l []string
				for _, k := range m.Keys() {
					l = append(l, string(k))
				}
				return names(l), nil
			case oStrKeys:
				return names(m.StringKeys()), nil
			}
			return "", nil
		}, Final: func() string {
			s := all(&Op{})
			n := 0
			if s != "[]" {
				n = strings.Count(s, "{")
			}
			return s + fmt.Sprint(n)
		}}
	}
}

func ordKinds() []*Kind {
	common := func(extra ...[]Op) []Op {
		return list(append([][]Op{mk(oInsert, 2, 1, 5), mk(oErase, 2, 1, 9), mk(oContains, 2), mk(oFind, 2, 9), mk(oLower, 2, 5), mk(oUpper, 2), mk(oBegin), mk(oFirst), mk(oLast), mk(oClear), mk(oSize), mk(oTrav), mk(oTrav2)}, extra...)...)
	}
	mops := common(mk(oGet, 2, 1), []Op{{Code: oEraseHandle, A: 2, Name: "EraseIter(iterator of 2)", Events: 1, Mut: true}})
	mmops := common(mk(oGet, 2, 1))
	sops := common(mk(oString))
	msops := common(mk(oString), mk(oCount, 2), mk(oEraseAll, 2))
	tops := list(mk(oInsert, 2, 5), mk(oErase, 2), mk(oClear), mk(oOtherIns, 2, 3), mk(oOtherErase, 2), mk(oOtherClear),
		mk(oInter), mk(oUnion), mk(oDiff), mk(oOtherInter), mk(oOtherUnion), mk(oOtherDiff), mk(oSelfInter), mk(oSelfUnion), mk(oSelfDiff))
	handle := func(a, b *Op) bool {
		x := func(a, b *Op) bool {
			return a.Code == oEraseHandle && (b.Code == oEraseHandle || b.Code == oClear || b.Code == oErase && b.A == 2)
		}
		return x(a, b) || x(b, a)
	}
	return []*Kind{
		{Name: "map", Inits: 4, Ops: mops, Core: core_(mops, oInsert, oErase, oGet, oSize, oTrav, oClear), Mk: mapSUT, Model: ordModelOf(fMap), Bad: handle},
		{Name: "multimap", Inits: 4, Ops: mmops, Core: core_(mmops, oInsert, oErase, oGet, oSize, oTrav, oClear), Mk: multiMapSUT, Model: ordModelOf(fMultiMap)},
		{Name: "set", Inits: 4, Ops: sops, Core: core_(sops, oInsert, oErase, oContains, oSize, oTrav, oClear), Mk: setSUT(false), Model: ordModelOf(fSet)},
		{Name: "multiset", Inits: 4, Ops: msops, Core: core_(msops, oInsert, oErase, oEraseAll, oCount, oSize, oTrav, oClear), Mk: multiSetSUT, Model: ordModelOf(fMultiSet)},
		{Name: "two sets", Inits: 4, Ops: tops, Core: core_(tops, oInsert, oErase, oOtherIns, oOtherErase, oInter, oOtherUnion, oDiff, oSelfDiff), Mk: setSUT(true), Model: ordModelOf(fTwoSets)},
	}
}

// ---- filters and rings ----

type bitsModel struct {
	set  int
	ring *ringTable
}

func (m *bitsModel) Clone() Model { x := *m; return &x }
func (m *bitsModel) Final() string {
	if m.ring != nil {
		return m.ring.place(m.set)
	}
	s := ""
	for i := range bloomVals {
		s += fmt.Sprint(m.set>>i&1 == 1, " ")
	}
	return s
}
func (m *bitsModel) Apply(o *Op, ev int, part string) string {
	switch o.Code {
	case oInsert:
		m.set |= 1 << o.A
	case oUnion: // several at once
		m.set |= 3 << o.A
	case oDiff:
		m.set &^= 3 << o.A
	case oErase:
		m.set &^= 1 << o.A
	case oContains:
		return fmt.Sprint(m.set>>o.A&1 == 1)
	case oEmpty:
		return fmt.Sprint(m.set == 0)
	case oGet:
		return m.ring.get(m.set, o.A)
	case oData:
		return m.Final()
	}
	return ""
}

var bloomVals = []string{"a", "b", "c", "dd", ""}

func answers(f *bloom.BloomFilter) string {
	s := ""
	for _, v := range bloomVals {
		s += fmt.Sprint(f.Contains(v), " ")
	}
	return s
}

func bloomSUT(export bool) func(init int) *SUT {
	return func(init int) *SUT {
		f := bloom.New(4096, 3, safe(bloom.WithGoroutineSafe())...)
		for i := 0; i < init; i++ {
			f.Add(bloomVals[i])
		}
		if export {
			f = bloom.NewFromData(f.Data(), safe(bloom.WithGoroutineSafe())...)
		}
		return &SUT{Do: func(o *Op) (string, func() string) {
			switch o.Code {
			case oInsert:
				f.Add(bloomVals[o.A])
			case oContains:
				return fmt.Sprint(f.Contains(bloomVals[o.A])), nil
			case oData:
				d := f.Data()
				return "", func() string { return answers(bloom.NewFromData(d)) }
			}
			return "", nil
		}, Final: func() string { return answers(f) }}
	}
}

// ringNames are the nodes and keys used on a ring.
type ringNames struct {
	name  string
	nodes []string
	keys  []string
}

var anyRing = &ringNames{"", []string{"n0", "n1", "n2", "n3"}, []string{"", "k1", "k2", "k3", "k4", "k5", "n0"}}

// ringOrders gives three nodes whose points (with one replica) are about a quarter, half and three quarters round the ring, in
// every order, and a key in each of the four arcs. Where the points are is only used to choose names.
func ringOrders() (x []*ringNames) {
	at := func(s string) uint64 { return hash.GenHashInts([]byte("ni9fkh72hgh1g"+s), 1)[0] }
	find := func(pre string, lo, hi uint64) string {
		for i := 0; ; i++ {
			if s := fmt.Sprint(pre, i); at(s) >= lo && at(s) < hi || i > 100000 {
				return s
			}
		}
	}
	const e = 1 << 61 // an eighth
	n := []string{find("x", 2*e-e/4, 2*e+e/4), find("y", 4*e-e/4, 4*e+e/4), find("z", 6*e-e/4, 6*e+e/4), "n"}
	k := []string{"", find("a", 0, e), find("b", 5*e/2, 3*e), find("c", 5*e, 11*e/2), find("d", 7*e, 8*e-1), "e", "f"}
	for i, p := range [][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}} {
		x = append(x, &ringNames{fmt.Sprintf(", order %d", i), []string{n[p[0]], n[p[1]], n[p[2]], n[3]}, k})
	}
	return x
}

type ringTable struct {
	*ringNames
	replicas int
	at       map[int][]string
}

func (r *ringTable) row(set int) []string {
	if x, ok := r.at[set]; ok {
		return x
	}
	k := ketama.New(ketama.WithReplicas(r.replicas))
	for i, n := range r.nodes {
		if set>>i&1 == 1 {
			k.Add(n)
		}
	}
	x := r.ringRow(k)
	r.at[set] = x
	return x
}
func (r *ringNames) ringRow(k *ketama.Ketama) (x []string) {
	for _, q := range r.keys {
		n, ok := k.Get(q)
		x = append(x, fmt.Sprint(n, ok))
	}
	return x
}
func (r *ringTable) place(set int) string    { return fmt.Sprint(r.row(set), set == 0) }
func (r *ringTable) get(set, key int) string { return r.row(set)[key] }

var ringSets = []int{0, 1, 3, 7}

func (r *ringTable) sut() func(init int) *SUT {
	return func(init int) *SUT {
		k := ketama.New(safe(ketama.WithGoroutineSafe(), ketama.WithReplicas(r.replicas))...)
		for i, n := range r.nodes {
			if ringSets[init]>>i&1 == 1 {
				k.Add(n)
			}
		}
		return &SUT{Do: func(o *Op) (string, func() string) {
			switch o.Code {
			case oInsert:
				k.Add(r.nodes[o.A])
			case oErase:
				k.Remove(r.nodes[o.A])
			case oUnion:
				k.Add(r.nodes[o.A], r.nodes[o.A+1])
			case oDiff:
				k.Remove(r.nodes[o.A], r.nodes[o.A+1])
			case oEmpty:
				return fmt.Sprint(k.Empty()), nil
			case oGet:
				n, ok := k.Get(r.keys[o.A])
				return fmt.Sprint(n, ok), nil
			}
			return "", nil
		}, Final: func() string { return fmt.Sprint(r.ringRow(k), k.Empty()) }}
	}
}

func miscKinds() []*Kind {
	makePools()
	skops := list(mk(oInsert, 2, 1, 5), mk(oErase, 2, 1, 9), mk(oGet, 2, 5), mk(oSize), mk(oTrav), mk(oTrav2), mk(oKeys))
	hops := list(mk(oInsert, 2, 1, 5), mk(oErase, 2, 1, 5), mk(oGet, 2, 1), mk(oTrav), mk(oKeys), mk(oStrKeys))
	bops := list(mk(oInsert, 0, 1, 2), mk(oContains, 0, 1, 2), mk(oData))
	rops := list(mk(oInsert, 0, 1), mk(oErase, 0, 1), mk(oUnion, 1), mk(oDiff, 0), mk(oGet, 1, 2), mk(oEmpty))
	for i := range rops {
		rops[i].Events = 1
		switch rops[i].Code {
		case oUnion:
			rops[i].Name, rops[i].Mut = "Add(n1,n2)", true
		case oDiff:
			rops[i].Name, rops[i].Mut = "Remove(n0,n1)", true
		}
	}
	var ks []*Kind
	for t := 1; t <= 3; t += 2 {
		ks = append(ks, &Kind{Name: fmt.Sprintf("skiplist, new elements on level %d", t), Inits: 4, Ops: skops, Core: core_(skops, oInsert, oErase, oGet, oSize, oTrav), Mk: skipSUT(t), Model: ordModelOf(fSkip)})
	}
	for p := range hamtPools {
		ks = append(ks, &Kind{Name: fmt.Sprintf("hamt, keys %d", p), Inits: 4, Ops: hops, Core: core_(hops, oInsert, oErase, oGet, oTrav), Mk: hamtSUT(p), Model: ordModelOf(fHamt)})
	}
	for e := 0; e < 2; e++ {
		ks = append(ks, &Kind{Name: []string{"bloom filter", "bloom filter from data"}[e], Inits: 3, Ops: bops, Core: core_(bops, oInsert, oContains, oData), Mk: bloomSUT(e == 1), Model: func(init int) Model { return &bitsModel{set: 1<<init - 1} }})
	}
	for _, rep := range []int{1, 2} {
		tab := &ringTable{anyRing, rep, map[int][]string{}}
		ks = append(ks, &Kind{Name: fmt.Sprintf("ketama, replicas %d", rep), Inits: 4, Ops: rops, Core: core_(rops, oInsert, oErase, oGet, oDiff), Mk: tab.sut(), Model: func(init int) Model { return &bitsModel{set: ringSets[init], ring: tab} }})
	}
	return ks
}

// ringKinds are rings on which nodes and keys lie in every order.
func ringKinds() (ks []*Kind) {
	ops := list(mk(oInsert, 0, 1), mk(oErase, 0, 1), mk(oUnion, 0, 1), mk(oDiff, 0, 1), mk(oGet, 1, 2, 3, 4))
	var core []int
	for i := range ops {
		if ops[i].Code != oDiff {
			core = append(core, i)
		}
		ops[i].Events = 1
		a := ops[i].A
		switch ops[i].Code {
		case oUnion:
			ops[i].Name, ops[i].Mut = fmt.Sprintf("Add(n%d,n%d)", a, a+1), true
		case oDiff:
			ops[i].Name, ops[i].Mut = fmt.Sprintf("Remove(n%d,n%d)", a, a+1), true
		}
	}
	for _, n := range ringOrders() {
		tab := &ringTable{n, 1, map[int][]string{}}
		ks = append(ks, &Kind{Name: "ketama, replicas 1" + n.name, Inits: 4, Ops: ops, Core: core, Mk: tab.sut(), Model: func(init int) Model { return &bitsModel{set: ringSets[init], ring: tab} }})
	}
	return ks
}
