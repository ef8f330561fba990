// Package props holds the properties: for each, what is explored and against which reference model.
package props

import (
	"fmt"

	"verifmc/core"
	"verifmc/snap"
)

type (
	Val = snap.Val
	Key = snap.Key
)

// Ctx says how deep to go.
type Ctx struct {
	Tier    string
	Variant string
}

// Thorough is the deep tier.
func (c Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough one.
func (c Ctx) Pick(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}

var builders = map[string]func(c Ctx) []any{}

// extras are further parts of a property's check.
var extras = map[string][]func(c Ctx) []any{}

func extend(prop string, f func(c Ctx) []any) { extras[prop] = append(extras[prop], f) }

// Build returns the check of a property for one build variant, nil if there is nothing to do in it.
func Build(prop string, c Ctx) *core.Check {
	b := builders[prop]
	if b == nil {
		return nil
	}
	parts := b(c)
	for _, f := range extras[prop] {
		parts = append(parts, f(c)...)
	}
	if len(parts) == 0 {
		return nil
	}
	return &core.Check{Prop: prop, Parts: parts}
}

func op(kind, a, b int) uint32 { return uint32(kind)<<24 | uint32(a&0xfff)<<12 | uint32(b&0xfff) }
func unop(o uint32) (kind, a, b int) {
	return int(o >> 24), sx(int(o >> 12 & 0xfff)), sx(int(o & 0xfff))
}

// opw and unopw: one argument of 24 bits
func opw(kind, a int) uint32       { return uint32(kind)<<24 | uint32(a) }
func unopw(o uint32) (kind, a int) { return int(o >> 24), int(o & 0xffffff) }

// sx sign-extends: 0xfff is -1
func sx(x int) int {
	if x >= 0xf00 {
		return x - 0x1000
	}
	return x
}

func errf(f string, a ...any) error { return fmt.Errorf(f, a...) }

// want compares a result.
func want[T comparable](what string, got, exp T) error {
	if got != exp {
		return errf("%s = %v, want %v", what, got, exp)
	}
	return nil
}

func first(errs ...error) error {
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

// mustPanic runs f, which has to panic.
func mustPanic(what string, f func()) error {
	if _, p := core.PanicVal(f); !p {
		return errf("%s did not panic", what)
	}
	return nil
}

func insertAt[T any](s []T, i int, v T) []T {
	s = append(s, v)
	copy(s[i+1:], s[i:])
	s[i] = v
	return s
}
func eraseAt[T any](s []T, i, j int) []T { return append(s[:i], s[j:]...) }

func seqString[T any](s []T) string {
	str := "["
	for i, v := range s {
		if i > 0 {
			str += " "
		}
		str += fmt.Sprint(v)
	}
	return str + "]"
}

// near returns the positions of 0..n (inclusive) worth distinguishing when n is large.
func near(n int, marks ...int) []int {
	if n <= 12 {
		out := make([]int, 0, n+1)
		for i := 0; i <= n; i++ {
			out = append(out, i)
		}
		return out
	}
	set := map[int]bool{}
	var out []int
	add := func(i int) {
		if i >= 0 && i <= n && !set[i] {
			set[i] = true
			out = append(out, i)
		}
	}
	for d := 0; d <= 2; d++ {
		add(d)
		add(n - d)
		add(n/2 + d - 1)
	}
	for _, m := range marks {
		for d := -1; d <= 1; d++ {
			add(m + d)
			add(n - m + d)
		}
	}
	return out
}
