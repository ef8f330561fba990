package props

import (
	"github.com/liyue201/gostl/utils/iterator"
)

type raIter[T any] interface {
	iterator.RandomAccessIterator[T]
}

// checkRA walks random access iterators over a sequence whose contents are known.
func checkRA[T comparable](want []T, begin, end, first, last raIter[T], at func(i int) raIter[T]) error {
	n := len(want)
	i := 0
	for it := begin; !it.Equal(end); it.Next() {
		if i >= n {
			return errf("iteration from Begin to End passes %d elements, the size is %d", i+1, n)
		}
		if !it.IsValid() {
			return errf("iterator invalid at position %d of %d", i, n)
		}
		if v := it.Value(); v != want[i] {
			return errf("iterator value at %d = %v, want %v", i, v, want[i])
		}
		if it.Position() != i {
			return errf("iterator position %d, want %d", it.Position(), i)
		}
		i++
	}
	if i != n {
		return errf("iteration from Begin to End passes %d elements, the size is %d", i, n)
	}
	if end.IsValid() {
		return errf("End is valid")
	}
	i = n - 1
	for it := last; it.IsValid(); it.Prev() {
		if i < 0 {
			return errf("backward iteration passes more than %d elements", n)
		}
		if v := it.Value(); v != want[i] {
			return errf("backward iterator value at %d = %v, want %v", i, v, want[i])
		}
		i--
	}
	if i != -1 {
		return errf("backward iteration passes %d elements, the size is %d", n-1-i, n)
	}
	if first.IsValid() != (n > 0) {
		return errf("First valid = %v with %d elements", first.IsValid(), n)
	}
	if n > 0 && first.Value() != want[0] {
		return errf("First = %v, want %v", first.Value(), want[0])
	}
	if at != nil {
		for _, p := range near(n-1, 128) {
			if p < 0 {
				continue
			}
			it := at(p)
			if !it.IsValid() || it.Value() != want[p] {
				return errf("IterAt(%d) does not read element %d", p, p)
			}
		}
	}
	return nil
}
