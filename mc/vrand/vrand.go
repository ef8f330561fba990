// Package vrand stands in for math/rand in the code under test. Every source
// delivers the value the exploration has chosen, so that random decisions of
// the implementation become explored choices.
package vrand

import (
	"math/rand"
	"sync/atomic"
)

type (
	Rand     = rand.Rand
	Source   = rand.Source
	Source64 = rand.Source64
	Zipf     = rand.Zipf
)

// Chosen is how the explorer feeds one source.
type Chosen struct {
	seed int64
	src  rand.Source64 // made when first needed
	v    uint64
	n    int
	live bool
}

func (c *Chosen) Seed(seed int64) { c.seed, c.src = seed, nil }
func (c *Chosen) real() rand.Source64 {
	if c.src == nil {
		c.src = rand.NewSource(c.seed).(rand.Source64)
	}
	return c.src
}
func (c *Chosen) Uint64() uint64 {
	if !c.live {
		return c.real().Uint64()
	}
	c.n++
	if c.n > 256 { // do not let a rejection loop run forever
		return c.real().Uint64()
	}
	return c.v
}
func (c *Chosen) Int63() int64 { return int64(c.Uint64() >> 1) }

// Choose makes the source deliver v from now on.
func (c *Chosen) Choose(v uint64) { c.v, c.n, c.live = v, 0, true }

var (
	made atomic.Int64
	hook atomic.Pointer[func(*Chosen)]
)

// OnNew registers a function called with every new source.
func OnNew(f func(*Chosen)) { hook.Store(&f) }

func NewSource(seed int64) rand.Source {
	c := &Chosen{seed: seed}
	made.Add(1)
	if f := hook.Load(); f != nil {
		(*f)(c)
	}
	return c
}

// Made returns how many sources were created.
func Made() int64 { return made.Load() }

func New(src rand.Source) *rand.Rand { return rand.New(src) }
func NewZipf(r *rand.Rand, s float64, v float64, i uint64) *rand.Zipf {
	return rand.NewZipf(r, s, v, i)
}

var (
	Seed        = rand.Seed
	Int         = rand.Int
	Intn        = rand.Intn
	Int31       = rand.Int31
	Int31n      = rand.Int31n
	Int63       = rand.Int63
	Int63n      = rand.Int63n
	Uint32      = rand.Uint32
	Uint64      = rand.Uint64
	Float32     = rand.Float32
	Float64     = rand.Float64
	NormFloat64 = rand.NormFloat64
	ExpFloat64  = rand.ExpFloat64
	Perm        = rand.Perm
	Shuffle     = rand.Shuffle
	Read        = rand.Read
)
