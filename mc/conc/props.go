package conc

import (
	"encoding/binary"
	"fmt"
	"slices"

	"verifmc/core"
)

func le(x uint64) string {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], x)
	return string(b[:])
}

// makePools chooses the keys of the tries: keys that part early, and keys whose
// hashes agree in all or nearly all bits.
func makePools() {
	hamtPools[0] = [7]string{"", "k1", "k2", "k3", "k4", "k5", "k6"}
	a, b := le(0xb80f9939bd562ca), le(0x1fbafaacef1ecbb6) // the same 64 bits
	c, d := le(0x3bdafb54d14d7b14), le(0x9b3166705e20b6eb)
	hamtPools[1] = [7]string{"", a + c, a + d, b + c, le(0x2a4352e15911195), le(0x1c3663f84bd21bc), le(0x7317f5)}
}

// scenarios collects what a part explores.
type scenarios struct {
	name string
	sync bool
	all  []Scenario
}

func (s *scenarios) part() *core.Custom {
	return Explore(s.name, len(s.all), func(i int) *Scenario { return &s.all[i] })
}

// add adds a scenario unless it combines calls that may not be combined.
func (s *scenarios) add(k *Kind, init, bound int, sep, loose bool, threads ...[]Op) {
	if k.Bad != nil {
		for t, x := range threads {
			for i := range x {
				for u, y := range threads {
					for j := range y {
						if (t != u && !sep || t == u && i != j) && k.Bad(&x[i], &y[j]) {
							return
						}
					}
				}
			}
		}
	}
	sc := Scenario{Kind: k, Init: init, Bound: bound, Sep: sep, Loose: loose, Sync: s.sync}
	sc.Name = fmt.Sprintf("%s, initial contents %d", k.Name, init)
	for t, x := range threads {
		x = slices.Clone(x)
		for i := range x {
			x[i].V = 100 + 10*t + i
			if i == 0 {
				sc.Name += fmt.Sprintf("; thread %d: ", t)
			} else {
				sc.Name += ", "
			}
			sc.Name += x[i].Name
		}
		sc.Threads = append(sc.Threads, x)
	}
	s.all = append(s.all, sc)
}

func (k *Kind) core() (o []Op) {
	for _, i := range k.Core {
		o = append(o, k.Ops[i])
	}
	return o
}

func mut(o ...Op) bool {
	for _, x := range o {
		if x.Mut {
			return true
		}
	}
	return false
}

// one: every pair of calls.
func one(name string, ks []*Kind, bound int, sep bool) any {
	s := &scenarios{name: name}
	for _, k := range ks {
		for init := 0; init < k.Inits; init++ {
			bound := bound
			if k.Name == "two sets" && init == 3 {
				bound = max(bound-1, 0) // long calls
			}
			for i := range k.Ops {
				for j := i; j < len(k.Ops); j++ {
					s.add(k, init, bound, sep, false, k.Ops[i:i+1], k.Ops[j:j+1])
				}
			}
		}
	}
	return s.part()
}

// two: two calls in a row beside one, or beside two.
func two(name string, ks []*Kind, inits []int, bound int, both, sync bool) any {
	s := &scenarios{name: name, sync: sync}
	for _, k := range ks {
		c := k.core()
		for _, init := range inits {
			if init >= k.Inits {
				continue
			}
			for _, a := range c {
				for _, b := range c {
					for _, x := range c {
						if !both {
							s.add(k, init, bound, false, false, []Op{a, b}, []Op{x})
							continue
						}
						for _, y := range c {
							if !mut(a, b) && !mut(x, y) {
								continue
							}
							s.add(k, init, bound, false, false, []Op{a, b}, []Op{x, y})
						}
					}
				}
			}
		}
	}
	return s.part()
}

// three: three calls at the same time.
func three(name string, ks []*Kind, inits []int, bound int) any {
	s := &scenarios{name: name}
	for _, k := range ks {
		c := k.core()
		for _, init := range inits {
			if init >= k.Inits {
				continue
			}
			for i := range c {
				for j := i; j < len(c); j++ {
					for l := j; l < len(c); l++ {
						s.add(k, init, bound, false, false, c[i:i+1], c[j:j+1], c[l:l+1])
					}
				}
			}
		}
	}
	return s.part()
}

// four: four calls at the same time, threads changing at synchronisation only.
func four(name string, ks []*Kind, inits []int, bound int) any {
	s := &scenarios{name: name, sync: true}
	for _, k := range ks {
		c := k.core()
		for _, init := range inits {
			if init >= k.Inits {
				continue
			}
			for i := range c {
				for j := i; j < len(c); j++ {
					for l := j; l < len(c); l++ {
						for m := l; m < len(c); m++ {
							if !mut(c[i], c[j], c[l], c[m]) {
								continue
							}
							b := bound
							if k.Name == "two sets" {
								b++ // calls that take two locks
							}
							s.add(k, init, b, false, false, c[i:i+1], c[j:j+1], c[l:l+1], c[m:m+1])
						}
					}
				}
			}
		}
	}
	return s.part()
}

// panicking calls of a kind, with the initial contents they panic in, or might
func panicking(k *Kind) (o []Op) {
	has := func(code int) bool { return slices.ContainsFunc(k.Ops, func(o Op) bool { return o.Code == code }) }
	if has(oTrav) {
		o = append(o, mk(oTravPanic, 1, 2, 3)...)
	}
	if has(oEraseHandle) {
		o = append(o, mk(oEraseNil)...)
	}
	if has(oSelfInter) {
		o = append(o, mk(oNilInter)...)
		o = append(o, mk(oNilUnion)...)
		o = append(o, mk(oNilDiff)...)
	}
	for _, c := range []int{oPop, oFront, oBack} {
		if has(c) {
			o = append(o, mk(c)...)
		}
	}
	return o
}

// armed calls: the comparator panics at the given comparison.
func armed(k *Kind) (o []Op) {
	for _, x := range k.Ops {
		if x.Code == oEraseHandle {
			continue
		}
		for n := 1; n <= 4; n++ {
			y := x
			y.Arm = n
			y.Name += fmt.Sprintf(" with the comparator panicking at comparison %d", n)
			o = append(o, y)
		}
	}
	return o
}

func withPanics(name string, ks []*Kind, bound int, cmp bool) any {
	s := &scenarios{name: name}
	for _, k := range ks {
		l := panicking
		if cmp {
			l = armed
		}
		for init := 0; init < k.Inits; init++ {
			for _, p := range l(k) {
				loose := p.Arm > 0 && p.Mut
				for _, x := range k.Ops {
					s.add(k, init, 0, false, loose, []Op{p, x})
					s.add(k, init, bound, false, loose, []Op{p}, []Op{x})
				}
			}
		}
	}
	return s.part()
}

// afterPanic: a panicking call followed by another call, beside one more.
func afterPanic(name string, ks []*Kind, inits []int, bound int) any {
	s := &scenarios{name: name}
	for _, k := range ks {
		c := k.core()
		for _, init := range inits {
			for _, p := range panicking(k) {
				for _, q := range panicking(k) {
					s.add(k, init, bound, false, false, []Op{p}, []Op{q})
				}
				for _, x := range c {
					for _, y := range c {
						s.add(k, init, bound, false, false, []Op{p, x}, []Op{y})
					}
				}
			}
		}
	}
	return s.part()
}

// Build returns the check of a property for one build variant.
func Build(prop, tier, variant string) *core.Check {
	deep := tier == "thorough"
	pick := func(q, t int) int {
		if deep {
			return t
		}
		return q
	}
	ini := []int{0, 1, 2}
	if deep {
		ini = []int{0, 1, 2, 3}
	}
	c := &core.Check{Prop: prop}
	add := func(p ...any) { c.Parts = append(c.Parts, p...) }
	all := func() []*Kind { return slices.Concat(seqKinds(), ordKinds(), miscKinds()) }
	switch prop {
	case "P30", "P31", "P32":
		if variant != "sched" {
			return nil
		}
		ks := map[string]func() []*Kind{"P30": seqKinds, "P31": ordKinds, "P32": miscKinds}[prop]()
		more := 0
		if prop == "P30" && !deep {
			more = 1 // few calls and short ones
		}
		add(one("two calls", ks, pick(2, 3)+more, false))
		add(three("three calls at once", ks, ini, pick(1, 2)+more))
		add(two("two calls in a row beside one", ks, ini, pick(1, 2)+more, false, false))
		add(one("two calls, containers used by the comparator and visitors of another", beside(ks), pick(1, 2), false))
		add(four("four calls at once, changes of threads at synchronisation", ks, pick2(deep, []int{2}, ini), pick(1, 2)))
		add(two("two calls in a row beside two, changes of threads at synchronisation", ks, pick2(deep, []int{2}, ini), pick(3, 5), true, true))
		add(two("two calls in a row beside one, changes of threads at synchronisation", ks, ini, pick(6, 20), false, true))
		if prop == "P32" {
			add(one("two calls, rings in every order", ringKinds(), pick(2, 3), false))
			add(two("two calls in a row beside one, rings in every order", ringKinds(), ini, pick(1, 2), false, false))
		}
		if deep {
			add(two("two calls in a row beside two", ks, []int{0, 2}, 1, true, false))
		}
	case "P33":
		if variant != "race" {
			return nil
		}
		add(first("the first calls in a process, separate containers", all(), pick2(deep, ini, []int{0, 2}), true, deep))
		add(first("the first calls in a process, separate containers without the goroutine-safe option", plainKinds(), pick2(deep, ini, []int{0, 2}), true, deep))
		if FirstOnly {
			return c
		}
		add(one("two calls", all(), pick(1, 2), false))
		add(one("two calls on separate containers", all(), 0, true))
		add(one("two calls on separate containers without the goroutine-safe option", plainKinds(), pick(0, 1), true))
		if deep {
			add(three("three calls at once", all(), ini, 1))
			add(two("two calls in a row beside one", all(), ini, 1, false, false))
		}
	case "P38":
		if variant != "race" {
			return nil
		}
		ks := append(readOnly(plainKinds()), readKinds()...)
		add(first("two readers, the first calls in a process", ks, ini, false, deep))
		add(first("two calls on disjoint halves, the first in a process", halfKinds(), ini, false, true))
		if FirstOnly {
			return c
		}
		add(one("two readers", ks, 0, false))
		add(one("two calls on disjoint halves", halfKinds(), 0, false))
		if deep {
			add(three("three readers", readOnly(ks), []int{0, 1, 2, 3}, 0))
			add(two("two reading calls in a row beside one", readOnly(plainKinds()), ini, 0, false, false))
		}
	case "P34":
		if variant != "sched" {
			return nil
		}
		add(withPanics("empty containers and panicking visitors", all(), pick(1, 2), false))
		add(withPanics("panicking comparators", all(), pick(1, 2), true))
		add(afterPanic("calls after a panic beside another", all(), ini, pick(0, 1)))
	default:
		return nil
	}
	return c
}

func pick2[T any](deep bool, q, t T) T {
	if deep {
		return t
	}
	return q
}

// plainKinds are the containers made without the goroutine-safe option.
func plainKinds() []*Kind {
	unsafe = true
	defer func() { unsafe = false }()
	ks := slices.Concat(seqKinds(), ordKinds(), miscKinds())
	for _, k := range ks {
		mk := k.Mk
		k.Name += " without the goroutine-safe option"
		k.Plain = true
		k.Mk = func(init int) *SUT {
			if !unsafe {
				unsafe = true
				defer func() { unsafe = false }()
			}
			return mk(init)
		}
	}
	return append(ks, otherKinds()...)
}

// unsafe: containers are made without the goroutine-safe option.
var unsafe bool
