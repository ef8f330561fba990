package props

import (
	"errors"
	"fmt"
	"math"
	"reflect"

	"github.com/liyue201/gostl/ds/pair"
	"verifmc/core"
	"verifmc/snap"
)

type pairStruct struct {
	A int
	B string
}

// pairVal is a value to put into a pair.
type pairVal struct {
	name string
	v    any
	cmp  bool // may be compared
	cls  int  // comparable values are equal exactly when their classes are the same; -1: equal to nothing
}

var pairVals, pairSlots = func() ([]pairVal, []any) {
	i1, i2 := new(int), new(int)
	var nilp *int
	e1, e2 := errors.New("e"), errors.New("e")
	ch := make(chan int)
	inner, inner2 := pair.MakePair(1, 2), pair.MakePair(1, 2)
	vs := []pairVal{}
	cls := 0
	add := func(name string, v any, same ...any) {
		cls++
		vs = append(vs, pairVal{name, v, true, cls})
		for _, s := range same {
			vs = append(vs, pairVal{name + " again", s, true, cls})
		}
	}
	text := []byte{'x', 'y'}
	add("nil", nil)
	add("0", 0)
	add("1", 1, 2-1)
	add("int64 1", int64(1))
	add("uint8 1", uint8(1))
	add("float 1", 1.0)
	add("float 0", 0.0, math.Copysign(0, -1))
	add("false", false)
	add("true", true)
	add(`""`, "")
	add(`"xy"`, "xy", string(text))
	add("pointer 1", i1, i1)
	add("pointer 2", i2)
	add("nil pointer", nilp)
	add("error 1", e1, e1)
	add("error 2", e2)
	add("channel", ch)
	add("struct", pairStruct{1, "a"}, pairStruct{1, string([]byte{'a'})})
	add("struct 2", pairStruct{1, "b"})
	add("array", [2]int{1, 2}, [2]int{1, 2})
	add("array 2", [2]int{2, 1})
	add("complex", complex(1, 2))
	add("rune", 'x')
	add("pair", *inner, *inner2)
	add("pair pointer", inner)
	add("pair pointer 2", inner2)
	vs = append(vs, pairVal{"NaN", math.NaN(), true, -1})
	vs = append(vs, pairVal{"slice", []int{1}, false, 0}, pairVal{"nil slice", []int(nil), false, 0}, pairVal{"map", map[int]int{}, false, 0}, pairVal{"func", func() {}, false, 0})
	var raw []any
	for _, v := range vs {
		raw = append(raw, v.v)
	}
	return vs, raw
}()

// sameVal says whether a is the very value v of the list.
func sameVal(a any, i int) bool {
	b := pairSlots[i]
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if a == nil {
		return true
	}
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	switch x.Kind() {
	case reflect.Slice:
		return x.Pointer() == y.Pointer() && x.Len() == y.Len() && x.Cap() == y.Cap()
	case reflect.Map, reflect.Func:
		return x.Pointer() == y.Pointer()
	case reflect.Float64:
		return math.Float64bits(a.(float64)) == math.Float64bits(b.(float64))
	}
	return a == b
}

func sameClass(i, j int) bool {
	return pairVals[i].cls == pairVals[j].cls && pairVals[i].cls > 0
}

// pairHolds compares a pair with what it was made of.
func pairHolds(what string, p *pair.Pair, f, b int) error {
	switch {
	case !sameVal(p.Front, f):
		return errf("%s: Front = %v (%T), want %s", what, p.Front, p.Front, pairVals[f].name)
	case !sameVal(p.Back, b):
		return errf("%s: Back = %v (%T), want %s", what, p.Back, p.Back, pairVals[b].name)
	case !sameVal(p.Fronts(), f):
		return errf("%s: Fronts() = %v (%T), want %s", what, p.Fronts(), p.Fronts(), pairVals[f].name)
	case !sameVal(p.Backs(), b):
		return errf("%s: Backs() = %v (%T), want %s", what, p.Backs(), p.Backs(), pairVals[b].name)
	}
	return nil
}

func pairEq(what string, p, q *pair.Pair, pf, pb, qf, qb int) error {
	for _, i := range []int{pf, pb, qf, qb} {
		if !pairVals[i].cmp {
			return nil
		}
	}
	exp := sameClass(pf, qf) && sameClass(pb, qb)
	if got := p.Equal(*q); got != exp {
		return errf("%s: (%s, %s).Equal((%s, %s)) = %v, want %v", what, pairVals[pf].name, pairVals[pb].name, pairVals[qf].name, pairVals[qb].name, got, exp)
	}
	return nil
}

// pairM is three pairs and what they hold.
type pairM struct {
	p    [3]*pair.Pair
	m    [3][2]int
	made [3]int // how each was made: a pair might be shared behind the scenes
	vals []int
}

const (
	pmMake = iota
	pmNew
	pmCopy
	pmSwap
	pmFront
	pmBack
)

func (s *pairM) Ops(buf []uint32) []uint32 {
	n := len(s.vals)
	for i := 0; i < 3; i++ {
		for x := 0; x < n*n; x++ {
			buf = append(buf, op(pmMake, i, x), op(pmNew, i, x))
		}
		for j := 0; j < 3; j++ {
			if i != j {
				buf = append(buf, op(pmCopy, i, j))
			}
		}
		buf = append(buf, op(pmSwap, i, 0))
		for x := 0; x < n; x++ {
			buf = append(buf, op(pmFront, i, x), op(pmBack, i, x))
		}
	}
	return buf
}

func (s *pairM) Name(o uint32) string {
	k, a, b := unop(o)
	id := string(rune('a' + a))
	v := func(i int) string { return pairVals[s.vals[i]].name }
	n := len(s.vals)
	switch k {
	case pmMake:
		return fmt.Sprintf("%s = MakePair(%s, %s)", id, v(b/n), v(b%n))
	case pmNew:
		return fmt.Sprintf("%s.New(%s, %s)", id, v(b/n), v(b%n))
	case pmCopy:
		return fmt.Sprintf("*%s = *%c", id, 'a'+b)
	case pmSwap:
		return fmt.Sprintf("%s.New(%s.Backs(), %s.Fronts())", id, id, id)
	case pmFront:
		return fmt.Sprintf("%s.Front = %s", id, v(b))
	}
	return fmt.Sprintf("%s.Back = %s", id, v(b))
}

func (s *pairM) Do(o uint32) error {
	k, a, b := unop(o)
	n := len(s.vals)
	switch k {
	case pmMake:
		s.m[a] = [2]int{s.vals[b/n], s.vals[b%n]}
		s.made[a] = b + 1
		s.p[a] = pair.MakePair(pairSlots[s.m[a][0]], pairSlots[s.m[a][1]])
	case pmNew:
		s.m[a] = [2]int{s.vals[b/n], s.vals[b%n]}
		s.p[a].New(pairSlots[s.m[a][0]], pairSlots[s.m[a][1]])
	case pmCopy:
		*s.p[a] = *s.p[b]
		s.m[a] = s.m[b]
	case pmSwap:
		s.p[a].New(s.p[a].Backs(), s.p[a].Fronts())
		s.m[a][0], s.m[a][1] = s.m[a][1], s.m[a][0]
	case pmFront:
		s.m[a][0] = s.vals[b]
		s.p[a].Front = pairSlots[s.vals[b]]
	case pmBack:
		s.m[a][1] = s.vals[b]
		s.p[a].Back = pairSlots[s.vals[b]]
	}
	return nil
}

func (s *pairM) Check() error {
	for i := range s.p {
		if err := pairHolds(string(rune('a'+i)), s.p[i], s.m[i][0], s.m[i][1]); err != nil {
			return err
		}
		for j := range s.p {
			if err := pairEq(fmt.Sprintf("%c and %c", 'a'+i, 'a'+j), s.p[i], s.p[j], s.m[i][0], s.m[i][1], s.m[j][0], s.m[j][1]); err != nil {
				return err
			}
		}
	}
	// comparing and reading changed nothing
	for i := range s.p {
		if err := pairHolds(fmt.Sprintf("%c after the comparisons", 'a'+i), s.p[i], s.m[i][0], s.m[i][1]); err != nil {
			return err
		}
	}
	return nil
}

func (s *pairM) State(h *snap.Hasher) {
	for i := range s.m {
		h.Int(s.m[i][0])
		h.Int(s.m[i][1])
		h.Int(s.made[i])
	}
	for i := range s.p {
		for j := 0; j < i; j++ {
			h.Int(btoi(s.p[i] == s.p[j]))
		}
	}
}

func init() {
	builders["P36"] = func(c Ctx) []any {
		n := int64(len(pairVals))
		pick := func(i int64) (a, b, x, y int) {
			return int(i / (n * n * n)), int(i / (n * n) % n), int(i / n % n), int(i % n)
		}
		all := &core.Enum{Name: "all pairs of pairs over values of every kind", N: n * n * n * n, Chunk: 4096,
			Show: func(i int64) string {
				a, b, x, y := pick(i)
				return fmt.Sprintf("(%s, %s) and (%s, %s)", pairVals[a].name, pairVals[b].name, pairVals[x].name, pairVals[y].name)
			},
			Run: func(w *core.Worker, i int64) (int64, error) {
				a, b, x, y := pick(i)
				p := pair.MakePair(pairSlots[a], pairSlots[b])
				q := &pair.Pair{}
				q.New(pairSlots[x], pairSlots[y])
				return 4, first(pairEq("p, q", p, q, a, b, x, y), pairEq("q, p", q, p, x, y, a, b),
					pairHolds("p", p, a, b), pairHolds("q", q, x, y))
			}}
		named := func(names ...string) []int {
			var out []int
			for _, want := range names {
				for i, v := range pairVals {
					if v.name == want {
						out = append(out, i)
					}
				}
			}
			return out
		}
		sets := [][]int{named("nil", "1", "slice"), named("1", "1 again", "int64 1"), named("nil", "NaN", "nil pointer")}
		if c.Thorough() {
			sets = append(sets, named("nil", "1", `"xy"`, `"xy" again`), named("pair", "pair again", "pair pointer", "func"))
		}
		parts := []any{all}
		for i, vs := range sets {
			parts = append(parts, &core.Spec{Name: fmt.Sprintf("histories of three pairs over %d values (set %d)", len(vs), i+1), Roots: 1, Depth: c.Pick(3, 6), Max: c.Pick(300000, 12000000),
				Root: func(int) core.Machine {
					s := &pairM{vals: vs}
					for i := range s.p {
						s.p[i] = &pair.Pair{}
					}
					return s
				}})
		}
		return parts
	}
}
