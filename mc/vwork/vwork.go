// Package vwork counts what the code under test does: statements, and the
// elements that append, copy and make touch. It is meant for one goroutine.
package vwork

// N is the count.
var N int64

// P counts a statement.
func P() { N++ }

// Count counts the n elements of a copy.
func Count(n int) int {
	N += int64(n)
	return n
}

// Made counts the elements of a slice just made.
func Made[S ~[]E, E any](s S) S {
	N += int64(cap(s))
	return s
}

// Append appends and counts the elements added, and those moved when the slice grows.
func Append[S ~[]E, E any](s S, e ...E) S {
	c := cap(s)
	s = append(s, e...)
	N += int64(len(e))
	if cap(s) != c {
		N += int64(cap(s))
	}
	return s
}
