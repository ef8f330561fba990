package props

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"slices"
	"sync"

	"github.com/liyue201/gostl/ds/hamt"
	"verifmc/core"
	"verifmc/snap"
)

func le(x uint64) string {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], x)
	return string(b[:])
}

func fnv1(s string) uint64 { h := fnv.New64(); h.Write([]byte(s)); return h.Sum64() }

// pairs of keys whose 64-bit FNV-1 hashes agree in exactly the given number of low bits
// (found offline with a parallel rho search).
var hashPairs = map[int][2]uint64{
	12: {0x2e6, 0x775}, 18: {0x14fe2, 0x36932}, 24: {0x7317f5, 0xd6bb04}, 30: {0x1169e8ab, 0x15a4f95d}, 36: {0x78b9136f1, 0xd33ecdd4f},
	42: {0x2dbf671ea5c, 0xea1e400315}, 48: {0xf5684d01ae7f, 0xaddd721b2e75}, 54: {0x21101bc599942b, 0xc164524b0c527}, 60: {0x1c3663f84bd21bc, 0x2a4352e15911195},
	64: {0xb80f9939bd562ca, 0x1fbafaacef1ecbb6},
}

// continuations: appended to the first key of a pair they collide again
var (
	after64  = [2]uint64{0x3bdafb54d14d7b14, 0x9b3166705e20b6eb} // all 64 bits, after either key of the 64 bit pair
	after60  = [2]uint64{0x61984a0c72c41f6b, 0xd46b4ecdea84176a} // all 64 bits, after the first key of the 60 bit pair
	after60d = [2]uint64{0x0f2161ded491af00, 0x0e7788e4d835b992} // 60 bits, after the first key of the 60 bit pair
	after54  = [2]uint64{0x644b33b828c2f28c, 0x0277638bcac2a3c0} // all 64 bits, after the first key of the 54 bit pair
)

// hamtPools are the sets of keys the histories use.
var hamtPools = sync.OnceValue(makeHamtPools)

func makeHamtPools() [][]string {
	pr := func(m, i int) string { return le(hashPairs[m][i]) }
	m4 := []string{pr(64, 0) + le(after64[0]), pr(64, 0) + le(after64[1]), pr(64, 1) + le(after64[0]), pr(64, 1) + le(after64[1])}
	p0 := append([]string{"", "a"}, m4...)
	p1 := []string{pr(60, 0) + le(after60[0]), pr(60, 0) + le(after60[1]), pr(60, 1) + le(after60[0]), pr(60, 1) + le(after60[1]), pr(60, 0), pr(60, 1)}
	p2 := []string{pr(60, 0) + le(after60d[0]), pr(60, 0) + le(after60d[1]), pr(60, 1) + le(after60d[0]), pr(60, 1) + le(after60d[1]), ""}
	p3 := []string{pr(54, 0) + le(after54[0]), pr(54, 0) + le(after54[1]), pr(54, 1) + le(after54[0]), pr(54, 1) + le(after54[1]), pr(54, 0), pr(54, 1)}
	p4 := []string{pr(48, 0), pr(48, 1), pr(24, 0), pr(24, 1), pr(12, 0), pr(12, 1)}
	p5 := []string{pr(42, 0), pr(42, 1), pr(36, 0), pr(36, 1), pr(64, 0), pr(64, 1)}
	p6 := []string{pr(30, 0), pr(30, 1), pr(18, 0), pr(18, 1), "", "\x00"}
	// keys that share more and more low bits with the empty key
	p7 := []string{""}
	base := fnv1("")
	for bits, i := 0, 0; bits <= 18; i++ {
		k := fmt.Sprintf("k%d", i)
		m := uint64(1)<<bits - 1
		if x := fnv1(k) ^ base; x&m == 0 && x>>bits&63 != 0 {
			p7 = append(p7, k)
			bits += 6
		}
	}
	// keys that are prefixes of each other
	p8 := []string{"", "x", "xx", "xxx", "xxxx", "x\x00", "\x00x"}
	// several children of several nodes on the second level
	var p9 []string
	for i := 0; len(p9) < 6; i++ {
		k := fmt.Sprintf("n%d", i)
		if len(p9) < 3 && fnv1(k)&63 == 0 || len(p9) >= 3 && fnv1(k)&63 == 63 {
			p9 = append(p9, k)
		}
	}
	return [][]string{p0, p1, p2, p3, p4, p5, p6, p7, p8, p9}
}

type hamtM struct {
	h    *hamt.Hamt[Val]
	keys []string
	m    map[string]Val
	next Val
	safe bool
}

func newHamt(safe bool, keys []string) *hamtM {
	var o []hamt.Option
	if safe {
		o = append(o, hamt.WithGoroutineSafe())
	}
	return &hamtM{h: hamt.New[Val](o...), keys: keys, m: map[string]Val{}, next: 1, safe: safe}
}

func (s *hamtM) Len() int { return len(s.m) }
func (s *hamtM) Ops(o []uint32) []uint32 {
	for i := range s.keys {
		o = append(o, opw(oInsGap, i))
	}
	for i := range s.keys {
		o = append(o, opw(oErase, i))
	}
	return append(o, opw(oObs, 0))
}
func (s *hamtM) Name(o uint32) string {
	k, a := unopw(o)
	switch k {
	case oInsGap:
		return fmt.Sprintf("Insert(%q)", s.keys[a])
	case oErase:
		return fmt.Sprintf("Erase(%q)", s.keys[a])
	}
	return "observe"
}

func key(s string) hamt.Key { return hamt.Key([]byte(s)) }

func (s *hamtM) Do(o uint32) error {
	k, a := unopw(o)
	switch k {
	case oInsGap:
		v := s.next
		s.next++
		s.h.Insert(key(s.keys[a]), v)
		s.m[s.keys[a]] = v
	case oErase:
		_, ok := s.m[s.keys[a]]
		delete(s.m, s.keys[a])
		if err := want(fmt.Sprintf("Erase(%q)", s.keys[a]), s.h.Erase(key(s.keys[a])), ok); err != nil {
			return err
		}
	case oObs:
		return s.Check()
	}
	return s.one(a)
}

func (s *hamtM) one(i int) error {
	k := s.keys[i]
	v, err := s.h.Get(key(k))
	e, ok := s.m[k]
	if (err == nil) != ok || v != e {
		return errf("Get(%q) = %v, %v, want %v present=%v", k, v, err, e, ok)
	}
	return nil
}

func (s *hamtM) Check() error {
	for i := range s.keys {
		if err := s.one(i); err != nil {
			return err
		}
	}
	for _, k := range []string{"absent", "\x00\x00", "k"} {
		if _, in := s.m[k]; in {
			continue
		}
		if v, err := s.h.Get(key(k)); err == nil || v != 0 {
			return errf("Get(%q) of an absent key = %v, %v", k, v, err)
		}
	}
	seen := map[string]bool{}
	var order []string
	var err error
	s.h.Traversal(func(k hamt.Key, v Val) bool {
		e, ok := s.m[string(k)]
		if err == nil {
			switch {
			case !ok:
				err = errf("the traversal meets the absent key %q", k)
			case seen[string(k)]:
				err = errf("the traversal meets key %q twice", k)
			case e != v:
				err = errf("the traversal meets %q with value %v, want %v", k, v, e)
			}
		}
		seen[string(k)] = true
		order = append(order, string(k))
		return true
	})
	if err = first(err, want("entries traversed", len(order), len(s.m))); err != nil {
		return err
	}
	ks, ss := s.h.Keys(), s.h.StringKeys()
	if len(ks) != len(order) || len(ss) != len(order) {
		return errf("%d keys, %d string keys, %d entries traversed", len(ks), len(ss), len(order))
	}
	for i := range order {
		if string(ks[i]) != order[i] || ss[i] != order[i] {
			return errf("key %d: %q, string key %q, traversed %q", i, ks[i], ss[i], order[i])
		}
	}
	return nil
}

func (s *hamtM) State(h *snap.Hasher) {
	var ks []string
	for k := range s.m {
		ks = append(ks, k)
	}
	slices.Sort(ks)
	for _, k := range ks {
		h.Str(k)
		h.Val(s.m[k])
	}
	h.Graph(s.h)
}

func init() {
	builders["P17"] = func(c Ctx) []any {
		pools := hamtPools()
		for m, p := range hashPairs {
			if (fnv1(le(p[0]))^fnv1(le(p[1])))<<(64-m) != 0 {
				panic("pair")
			}
		}
		parts := []any{&core.Spec{Name: "all histories of each set of keys", Roots: 2 * len(pools), Depth: c.Pick(10, 14), Max: c.Pick(400000, 4000000),
			Root: func(r int) core.Machine { return newHamt(r >= len(pools), pools[r%len(pools)]) }}}
		// big tries
		var many []string
		for i := 0; i < 4000; i++ {
			many = append(many, fmt.Sprintf("key-%d", i*i*7+i))
		}
		for i := 0; i < 40; i++ { // colliding groups in between
			for _, p := range pools[:6] {
				many = append(many, fmt.Sprint(i)+p[i%len(p)])
			}
		}
		many = append(many, pools[0]...)
		many = append(many, pools[1]...)
		var low []string // all in one subtree
		for i := 0; len(low) < 300; i++ {
			k := fmt.Sprintf("low%d", i)
			if fnv1(k)&0xfff == 0xabc&0xfff || fnv1(k)&63 == 0 {
				low = append(low, k)
			}
		}
		g := func(name string, kind int, f func(m *hamtM, k int) int) gen[*hamtM] {
			return gen[*hamtM]{name, func(m *hamtM, k int) uint32 { return opw(kind, f(m, k)%len(m.keys)) }}
		}
		up := []gen[*hamtM]{
			g("Insert(next)", oInsGap, func(m *hamtM, k int) int { return k }),
			g("Insert(previous)", oInsGap, func(m *hamtM, k int) int { return len(m.keys)*8 - 1 - k }),
			g("Insert(scattered)", oInsGap, func(m *hamtM, k int) int { return k * 7919 }),
			g("Erase(scattered)", oErase, func(m *hamtM, k int) int { return k * 31 }),
		}
		down := []gen[*hamtM]{
			g("Erase(next)", oErase, func(m *hamtM, k int) int { return k }),
			g("Erase(previous)", oErase, func(m *hamtM, k int) int { return len(m.keys)*8 - 1 - k }),
			g("Erase(scattered)", oErase, func(m *hamtM, k int) int { return k * 7919 }),
			g("Insert(scattered)", oInsGap, func(m *hamtM, k int) int { return k * 31 }),
		}
		return append(parts,
			periodic("periodic histories, many keys", func() *hamtM { return newHamt(false, many) }, up, down, 2, c.Pick(1, 2), c.Pick(1000, 3000), 6000, 1999),
			lives("long lives", func() *hamtM { return newHamt(false, many) }, []gen[*hamtM]{up[0], up[2]}, []gen[*hamtM]{down[0], down[2]}, 3, c.Pick(66000, 140000)),
			periodic("periodic histories, keys of one subtree", func() *hamtM { return newHamt(true, low) }, up, down, 2, c.Pick(1, 2), 300, 900, 101))
	}
}
