package props

import (
	"bytes"
	"cmp"
	"crypto/sha512"
	"fmt"
	"math"
	"slices"
	"sync"

	"github.com/liyue201/gostl/algorithm/hash"
	"github.com/liyue201/gostl/ds/ketama"
	"github.com/liyue201/gostl/utils/comparator"
	"verifmc/core"
	"verifmc/snap"
)

// ringPool: names of the nodes
var ringPool = []string{"node-a", "node-b", "", "10.0.0.1:80", "10.0.0.2:80", "node-aa", "x"}

func ringOpts(safe bool, replicas int) (o []ketama.Option) {
	if safe {
		o = append(o, ketama.WithGoroutineSafe())
	}
	if replicas > 0 {
		o = append(o, ketama.WithReplicas(replicas))
	}
	return o
}

func ringKeys(n int) []string {
	ks := []string{"", "\x00", "a"}
	ks = append(ks, ringPool...)
	for i := 0; len(ks) < n; i++ {
		ks = append(ks, fmt.Sprintf("key:%d", i))
	}
	return ks
}

// placement asks a ring about all keys; -1 is nothing found.
func placement(k *ketama.Ketama, names, keys []string) ([]int8, error) {
	out := make([]int8, len(keys))
	for i, q := range keys {
		n, ok := k.Get(q)
		if !ok {
			if n != "" {
				return nil, errf("Get(%q) finds nothing and returns %q", q, n)
			}
			out[i] = -1
			continue
		}
		out[i] = int8(slices.Index(names, n))
		if out[i] < 0 {
			return nil, errf("Get(%q) = %q, which was never added", q, n)
		}
	}
	return out, nil
}

// ringRef holds, for each set of nodes, the placement of all keys as a ring
// built freshly from that set in one order computes it.
type ringRef struct {
	replicas int
	names    []string
	keys     []string
	mu       sync.Mutex
	at       map[int][]int8
}

func (r *ringRef) place(set int) ([]int8, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if p := r.at[set]; p != nil {
		return p, nil
	}
	k := ketama.New(ringOpts(false, r.replicas)...)
	for i, n := range r.names {
		if set>>i&1 == 1 {
			k.Add(n)
		}
	}
	p, err := placement(k, r.names, r.keys)
	r.at[set] = p
	return p, err
}

type ringM struct {
	k   *ketama.Ketama
	set int
	ref *ringRef
}

func (s *ringM) Ops(o []uint32) []uint32 {
	n := len(s.ref.names)
	for i := 0; i < n; i++ {
		o = append(o, op(0, i, 0), op(1, i, 0), op(2, i, (i+1)%n), op(3, i, (i+2)%n))
	}
	return append(o, op(2, 0, 0), op(3, 0, 0), op(4, 0, 0), op(5, 0, 0), op(6, 0, 0))
}
func (s *ringM) Name(o uint32) string {
	k, a, b := unop(o)
	n := s.ref.names
	switch k {
	case 0:
		return fmt.Sprintf("Add(%q)", n[a])
	case 1:
		return fmt.Sprintf("Remove(%q)", n[a])
	case 2:
		return fmt.Sprintf("Add(%q,%q)", n[a], n[b])
	case 3:
		return fmt.Sprintf("Remove(%q,%q)", n[a], n[b])
	case 4:
		return "Add()"
	case 5:
		return "Remove(all)"
	}
	return "observe"
}
func (s *ringM) Do(o uint32) error {
	k, a, b := unop(o)
	n := s.ref.names
	switch k {
	case 0:
		s.k.Add(n[a])
		s.set |= 1 << a
	case 1:
		s.k.Remove(n[a])
		s.set &^= 1 << a
	case 2:
		s.k.Add(n[a], n[b])
		s.set |= 1<<a | 1<<b
	case 3:
		s.k.Remove(n[a], n[b])
		s.set &^= 1<<a | 1<<b
	case 4:
		s.k.Add()
	case 5:
		s.k.Remove(n...)
		s.set = 0
	case 6:
		return s.Check()
	}
	return nil
}
func (s *ringM) Check() error {
	if err := want("Empty()", s.k.Empty(), s.set == 0); err != nil {
		return err
	}
	exp, err := s.ref.place(s.set)
	if err != nil {
		return err
	}
	got, err := placement(s.k, s.ref.names, s.ref.keys)
	if err != nil {
		return err
	}
	for i := range got {
		if got[i] != exp[i] {
			return errf("with nodes %b key %q is placed on node %d; a fresh ring with the same nodes places it on node %d", s.set, s.ref.keys[i], got[i], exp[i])
		}
		if s.set == 0 && got[i] != -1 || s.set != 0 && (got[i] < 0 || s.set>>got[i]&1 == 0) {
			return errf("with nodes %b key %q is placed on node %d", s.set, s.ref.keys[i], got[i])
		}
	}
	return nil
}
func (s *ringM) State(h *snap.Hasher) {
	h.Int(s.set)
	h.Graph(s.k)
}

func init() {
	builders["P20"] = func(c Ctx) []any {
		var parts []any
		reps := []int{0, 1, 2, 3, 10}
		n := c.Pick(4, 5)
		for _, rep := range reps {
			ref := &ringRef{replicas: rep, names: ringPool[:n], keys: ringKeys(c.Pick(80, 200)), at: map[int][]int8{}}
			parts = append(parts, &core.Spec{Name: fmt.Sprintf("all histories over %d nodes, replicas %d", n, rep), Roots: 2, Depth: c.Pick(5, 8), Max: c.Pick(30000, 300000),
				Root: func(r int) core.Machine {
					return &ringM{k: ketama.New(ringOpts(r == 1, rep)...), ref: ref}
				}})
		}
		// all sets of nodes: what adding one node moves
		nn := c.Pick(6, 7)
		K := c.Pick(2000, 20000)
		parts = append(parts, &core.Enum{Name: fmt.Sprintf("all sets of up to %d nodes and each node added or removed, %d keys", nn, K), N: int64(len(reps)) << nn, Chunk: 1,
			Show: func(i int64) string { return fmt.Sprintf("replicas %d, nodes %b", reps[i>>nn], i&(1<<nn-1)) },
			Run: func(w *core.Worker, i int64) (int64, error) {
				rep, set := reps[i>>nn], int(i&(1<<nn-1))
				names, keys := ringPool[:nn], ringKeys(K)
				k := ketama.New(ringOpts(i&1 == 1, rep)...)
				for j := nn - 1; j >= 0; j-- {
					if set>>j&1 == 1 {
						k.Add(names[j])
					}
				}
				base, err := placement(k, names, keys)
				if err != nil {
					return 0, err
				}
				hits := make([]int, nn)
				for x, p := range base {
					if set == 0 && p != -1 || set != 0 && (p < 0 || set>>p&1 == 0) {
						return 0, errf("key %q is placed on node %d", keys[x], p)
					}
					if p >= 0 {
						hits[p]++
					}
				}
				for j := 0; j < nn; j++ {
					if set>>j&1 == 1 && hits[j] == 0 {
						return 0, errf("node %q is reached by none of %d keys", names[j], K)
					}
				}
				ops := int64(len(keys))
				for j := 0; j < nn; j++ {
					was := set>>j&1 == 1
					if was {
						k.Remove(names[j])
					} else {
						k.Add(names[j])
					}
					now, err := placement(k, names, keys)
					if err != nil {
						return ops, err
					}
					ops += int64(len(keys))
					for x := range now {
						if !was && now[x] != base[x] && int(now[x]) != j {
							return ops, errf("adding %q moves key %q from node %d to node %d", names[j], keys[x], base[x], now[x])
						}
						if was && now[x] != base[x] && int(base[x]) != j {
							return ops, errf("removing %q moves key %q from node %d to node %d", names[j], keys[x], base[x], now[x])
						}
						if was && int(now[x]) == j {
							return ops, errf("key %q is placed on %q after its removal", keys[x], names[j])
						}
					}
					if was {
						k.Add(names[j])
					} else {
						k.Remove(names[j])
					}
					again, err := placement(k, names, keys)
					if err != nil {
						return ops, err
					}
					if !slices.Equal(again, base) {
						return ops, errf("adding and removing %q again does not restore the placement", names[j])
					}
				}
				return ops, nil
			}})
		eff := []int{1, 2, 8}
		parts = append(parts, &core.Enum{Name: "few and many replicas give different placements", N: int64(len(eff) * 4), Chunk: 1,
			Show: func(i int64) string { return fmt.Sprintf("replicas %d, %d nodes", eff[i/4], i%4+2) },
			Run: func(w *core.Worker, i int64) (int64, error) {
				names, keys := ringPool[:i%4+2], ringKeys(3000)
				at := func(rep int) ([]int8, error) {
					k := ketama.New(ringOpts(false, rep)...)
					k.Add(names...)
					return placement(k, names, keys)
				}
				a, err := at(eff[i/4])
				if err != nil {
					return 0, err
				}
				for _, rep := range eff {
					b, err := at(rep)
					if err != nil {
						return 0, err
					}
					if max(rep-eff[i/4], eff[i/4]-rep) >= 6 && slices.Equal(a, b) {
						return 0, errf("%d and %d replicas place all of %d keys on the same of %d nodes", eff[i/4], rep, len(keys), len(names))
					}
				}
				return int64(len(eff)), nil
			}})
		// large rings, orders of addition and removal
		sizes := []int{20, 60, c.Pick(90, 250)}
		orders := c.Pick(3, 8)
		parts = append(parts, &core.Enum{Name: "large rings: orders of addition and removal", N: int64(len(sizes) * orders * 4), Chunk: 1,
			Show: func(i int64) string {
				return fmt.Sprintf("%d nodes, order %d, replicas %d", sizes[int(i)/orders/4], i/4%int64(orders), []int{0, 1, 8, 40}[i%4])
			},
			Run: func(w *core.Worker, i int64) (int64, error) {
				N, ord, rep := sizes[int(i)/orders/4], int(i)/4%orders, []int{0, 1, 8, 40}[i%4]
				names := make([]string, N)
				for j := range names {
					names[j] = fmt.Sprintf("server-%d", j)
				}
				at := func(j int) string {
					switch ord {
					case 0:
						return names[j]
					case 1:
						return names[N-1-j]
					default:
						for f := ord*7 + 1; ; f++ {
							if gcd(f, N) == 1 {
								return names[(j*f+ord)%N]
							}
						}
					}
				}
				keys := ringKeys(600)
				ref := func(keep func(j int) bool) (map[string]string, error) {
					k := ketama.New(ringOpts(false, rep)...)
					for j := range names {
						if keep(j) {
							k.Add(names[j])
						}
					}
					out := map[string]string{}
					for _, q := range keys {
						n, ok := k.Get(q)
						if !ok {
							return nil, errf("nothing found for %q", q)
						}
						out[q] = n
					}
					return out, nil
				}
				k := ketama.New(ringOpts(i&1 == 1, rep)...)
				ops := int64(0)
				cmp := func(when string, keep func(j int) bool) error {
					r, err := ref(keep)
					if err != nil {
						return err
					}
					for _, q := range keys {
						ops++
						if n, ok := k.Get(q); !ok || n != r[q] {
							return errf("%s: key %q is placed on %q, by a fresh ring on %q", when, q, n, r[q])
						}
					}
					w.Tick()
					return nil
				}
				for j := 0; j < N; j++ {
					k.Add(at(j))
				}
				if err := cmp("all added", func(j int) bool { return true }); err != nil {
					return ops, err
				}
				gone := map[string]bool{}
				for j := 0; j < N-1; j++ {
					k.Remove(at(j))
					gone[at(j)] = true
					if j%(N/4) == 0 || j == N-2 {
						if err := cmp(fmt.Sprint(j+1, " removed"), func(j int) bool { return !gone[names[j]] }); err != nil {
							return ops, err
						}
					}
				}
				k.Remove(at(N - 1))
				if _, ok := k.Get("key"); ok || !k.Empty() {
					return ops, errf("something is found after all nodes were removed")
				}
				k.Add(at(0))
				if n, ok := k.Get("key"); !ok || n != at(0) {
					return ops, errf("the only node %q is not found but %q", at(0), n)
				}
				return ops, nil
			}}, ringTwinsPart(), ringCirclePart(c))
		return parts
	}

	builders["P21"] = func(c Ctx) []any {
		text := func(n, seed int) []byte {
			b := make([]byte, n)
			x := uint32(seed)*2654435761 + 1
			for i := range b {
				switch seed {
				case 0:
					b[i] = 0
				case 1:
					b[i] = 0xff
				default:
					x = x*1664525 + 1013904223
					b[i] = byte(x >> 24)
				}
			}
			return b
		}
		L := c.Pick(1100, 5000)
		dig := &core.Enum{Name: fmt.Sprintf("digests of all lengths up to %d", L), N: int64(L+1) * 4,
			Show: func(i int64) string { return fmt.Sprintf("length %d, content %d", i/4, i%4) },
			Run: func(w *core.Worker, i int64) (int64, error) {
				d := text(int(i/4), int(i%4))
				keep := append([]byte(nil), d...)
				exp := sha512.Sum512(keep)
				a := hash.Hash512(d)
				if !bytes.Equal(a, exp[:]) {
					return 1, errf("Hash512 of %d bytes is %x, SHA-512 is %x", len(d), a, exp)
				}
				for j := range a {
					a[j] = 0
				}
				b := hash.Hash512(d)
				if !bytes.Equal(b, exp[:]) || !bytes.Equal(d, keep) {
					return 2, errf("Hash512 of %d bytes differs when called again, or changes its input", len(d))
				}
				return 2, nil
			}}
		big := &core.Enum{Name: "digests of large data", N: 8, Chunk: 1, Show: func(i int64) string { return fmt.Sprint(1<<(13+i)-1+i%3, " bytes") },
			Run: func(w *core.Worker, i int64) (int64, error) {
				d := text(1<<(13+i)-1+int(i)%3, int(i))
				exp := sha512.Sum512(d)
				if !bytes.Equal(hash.Hash512(d), exp[:]) {
					return 1, errf("Hash512 of %d bytes is not SHA-512", len(d))
				}
				return 1, nil
			}}
		N := c.Pick(70, 300)
		lists := &core.Enum{Name: fmt.Sprintf("lists of all lengths up to %d", N), N: int64(c.Pick(300, 1200)),
			Show: func(i int64) string { return fmt.Sprintf("seed of length %d, content %d", i/3, i%3) },
			Run: func(w *core.Worker, i int64) (int64, error) {
				seed := text(int(i/3), int(i%3))
				buf := append(seed, "spare capacity behind the seed"...)[:len(seed)]
				whole := append([]byte(nil), buf[:cap(buf)]...)
				long := hash.GenHashInts(buf, N)
				ops := int64(1)
				if len(long) != N {
					return 1, errf("%d values requested, %d returned", N, len(long))
				}
				long = slices.Clone(long)
				for n := 0; n <= N; n++ {
					ops++
					a := hash.GenHashInts(buf, n)
					if len(a) != n {
						return ops, errf("%d values requested, %d returned", n, len(a))
					}
					if !slices.Equal(a, long[:n]) {
						return ops, errf("the first %d of %d values are not those of the list of %d", n, N, n)
					}
					for j := range a {
						a[j] = 0
					}
				}
				if !bytes.Equal(buf[:cap(buf)], whole) {
					return ops, errf("the seed or the memory behind it was modified")
				}
				at := map[uint64]int{}
				for j, v := range long {
					if f, ok := at[v]; ok {
						what := fmt.Sprintf("value %d of the list of seed %x (%d bytes) equals value %d", j, trunc(buf, 16), len(buf), f)
						if j >= 8 && f == j%8 && periodic8(long) {
							w.E.Finding("list-repeats-after-8", what)
							break
						}
						return ops, errf("%s", what)
					}
					at[v] = j
				}
				return ops, nil
			}}
		seeds := &core.Enum{Name: "different seeds", N: 1, Show: func(int64) string { return "all seeds of up to two bytes, all of up to 600 bytes with one bit set" },
			Run: func(w *core.Worker, _ int64) (int64, error) {
				seen := map[uint64]string{}
				ops := int64(0)
				try := func(s []byte) error {
					ops++
					if ops&1023 == 0 {
						w.Tick()
					}
					v := hash.GenHashInts(s, 8)
					for _, x := range v {
						if o, ok := seen[x]; ok {
							return errf("a value for seed %x (%d bytes) is also one for seed %x (%d bytes)", trunc(s, 300), len(s), trunc([]byte(o), 300), len(o))
						}
						seen[x] = string(s)
					}
					return nil
				}
				s := make([]byte, 2)
				if err := try(nil); err != nil {
					return ops, err
				}
				for a := 0; a < 256; a++ {
					s[0] = byte(a)
					if err := try(s[:1]); err != nil {
						return ops, err
					}
					for b := 0; b < 256; b += c.Pick(3, 1) {
						s[1] = byte(b)
						if err := try(s); err != nil {
							return ops, err
						}
					}
				}
				for n := 3; n <= 600; n += c.Pick(13, 3) {
					t := make([]byte, n)
					if err := try(t); err != nil {
						return ops, err
					}
					for p := 0; p < n-1; p += 1 + n/c.Pick(40, 150) {
						t[p] = 1 << (p & 7)
						if err := try(t); err != nil {
							return ops, err
						}
						t[p] = 0
					}
					t[n-1] = 1
					if err := try(t); err != nil {
						return ops, err
					}
				}
				return ops, nil
			}}
		return []any{dig, big, lists, seeds}
	}

	builders["P22"] = func(c Ctx) []any {
		imin := []int64{math.MinInt64, math.MinInt64 + 1, math.MinInt32 - 1, math.MinInt32, math.MinInt16 - 1, math.MinInt16, -129, -128, -2, -1, 0, 1, 2, 127, 128, 255, 256, math.MaxInt16, math.MaxInt16 + 1, 1 << 16, math.MaxInt32, math.MaxInt32 + 1, 1 << 32, 1<<53 + 1, 1 << 53, math.MaxInt64 - 1, math.MaxInt64}
		um := []uint64{0, 1, 2, 127, 128, 255, 256, 1<<15 - 1, 1 << 15, 1<<16 - 1, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 53, 1<<53 + 1, 1<<63 - 1, 1 << 63, 1<<63 + 1, math.MaxUint64 - 1, math.MaxUint64}
		f64 := []float64{math.NaN(), math.Float64frombits(0xfff8000000000001), math.Float64frombits(0x7ff0000000000001), math.Inf(-1), -math.MaxFloat64, -1e300, -2, -1 - 1e-15, -1, -math.SmallestNonzeroFloat64, math.Copysign(0, -1), 0, math.SmallestNonzeroFloat64, 2.2250738585072014e-308, 1e-300, 0.5, 1, 1 + 2.3e-16, 1.5, 1 << 53, 1<<53 + 2, math.MaxFloat64, math.Inf(1)}
		f32 := []float32{float32(math.NaN()), math.Float32frombits(0xffc00001), math.Float32frombits(0x7f800001), float32(math.Inf(-1)), -math.MaxFloat32, -1, -math.SmallestNonzeroFloat32, float32(math.Copysign(0, -1)), 0, math.SmallestNonzeroFloat32, 1e-38, 1, math.Nextafter32(1, 2), 2, 1 << 24, 1<<24 + 2, math.MaxFloat32, float32(math.Inf(1))}
		str := []string{"", "\x00", "\x00\x00", "\x00a", "A", "a", "a\x00", "aa", "ab", "b", "ba", "z", "é", "\x7f", "\x80", "\xff", "\xff\xff", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab"}
		var parts []any
		add := func(e *core.Enum) { parts = append(parts, e) }
		fin := []float64{math.Inf(-1), -math.MaxFloat64, -1, -math.SmallestNonzeroFloat64, math.Copysign(0, -1), 0, math.SmallestNonzeroFloat64, 1, math.Nextafter(1, 2), math.MaxFloat64, math.Inf(1)}
		fin32 := []float32{float32(math.Inf(-1)), -math.MaxFloat32, -1, -math.SmallestNonzeroFloat32, float32(math.Copysign(0, -1)), 0, math.SmallestNonzeroFloat32, 1, math.Nextafter32(1, 2), math.MaxFloat32, float32(math.Inf(1))}
		var c128 []complex128
		var c64 []complex64
		for i := range fin {
			for j := range fin {
				c128 = append(c128, complex(fin[i], fin[j]))
				c64 = append(c64, complex(fin32[i], fin32[j]))
			}
		}
		add(cmpEnum("int", conv[int](imin), comparator.IntComparator, cmp.Compare[int], comparator.OrderedTypeCmp[int]))
		add(cmpEnum("int16", conv[int16](imin), comparator.Int16Comparator, cmp.Compare[int16], comparator.OrderedTypeCmp[int16]))
		add(cmpEnum("int32", conv[int32](imin), comparator.Int32Comparator, cmp.Compare[int32], comparator.OrderedTypeCmp[int32]))
		add(cmpEnum("int64", imin, comparator.Int64Comparator, cmp.Compare[int64], comparator.OrderedTypeCmp[int64]))
		add(cmpEnum("uint", conv[uint](um), comparator.UintComparator, cmp.Compare[uint], comparator.OrderedTypeCmp[uint]))
		add(cmpEnum("uint16", conv[uint16](um), comparator.Uint16Comparator, cmp.Compare[uint16], comparator.OrderedTypeCmp[uint16]))
		add(cmpEnum("uint32", conv[uint32](um), comparator.Uint32Comparator, cmp.Compare[uint32], comparator.OrderedTypeCmp[uint32]))
		add(cmpEnum("uint64", um, comparator.Uint64Comparator, cmp.Compare[uint64], comparator.OrderedTypeCmp[uint64]))
		add(cmpEnum("uintptr", conv[uintptr](um), comparator.UintptrComparator, cmp.Compare[uintptr], comparator.OrderedTypeCmp[uintptr]))
		var i8 []int8
		var u8 []uint8
		for i := 0; i < 256; i++ {
			i8, u8 = append(i8, int8(i-128)), append(u8, uint8(i))
		}
		add(cmpEnum("int8, all values", i8, comparator.Int8Comparator, cmp.Compare[int8], comparator.OrderedTypeCmp[int8]))
		add(cmpEnum("uint8, all values", u8, comparator.Uint8Comparator, cmp.Compare[uint8], comparator.OrderedTypeCmp[uint8]))
		add(cmpEnum("float32", f32, comparator.Float32Comparator, cmp.Compare[float32], comparator.OrderedTypeCmp[float32]))
		add(cmpEnum("float64", f64, comparator.Float64Comparator, cmp.Compare[float64], comparator.OrderedTypeCmp[float64]))
		add(cmpEnum("string", str, comparator.StringComparator, cmp.Compare[string], comparator.OrderedTypeCmp[string]))
		type named string
		type nint int16
		type nfl float32
		add(cmpEnum("named string", conv2[named](str), nil, cmp.Compare[named], comparator.OrderedTypeCmp[named]))
		add(cmpEnum("named int16", conv[nint](imin), nil, cmp.Compare[nint], comparator.OrderedTypeCmp[nint]))
		add(cmpEnum("named float32", conv[nfl](f32), nil, cmp.Compare[nfl], comparator.OrderedTypeCmp[nfl]))
		add(cmpEnum("bool", []bool{false, true}, comparator.BoolComparator, func(a, b bool) int { return btoi(a) - btoi(b) }, nil))
		add(cmpEnum("complex128", c128, comparator.Complex128Comparator, func(a, b complex128) int {
			return cmp.Or(cmp.Compare(real(a), real(b)), cmp.Compare(imag(a), imag(b)))
		}, nil))
		add(cmpEnum("complex64", c64, comparator.Complex64Comparator, func(a, b complex64) int {
			return cmp.Or(cmp.Compare(real(a), real(b)), cmp.Compare(imag(a), imag(b)))
		}, nil))
		// all pairs of 16 bit values
		step := c.Pick(64, 1)
		add(&core.Enum{Name: fmt.Sprintf("int16 and uint16: all values against every %d. value", step), N: 1 << 16,
			Show: func(i int64) string { return fmt.Sprint(int16(i)) },
			Run: func(w *core.Worker, i int64) (int64, error) {
				for j := int(i) % step; j < 1<<16; j += step {
					a, b := int16(i), int16(j)
					if comparator.Int16Comparator(a, b) != cmp.Compare(a, b) || comparator.OrderedTypeCmp(a, b) != cmp.Compare(a, b) {
						return 0, errf("int16 comparison of %d and %d", a, b)
					}
					c, d := uint16(i), uint16(j)
					if comparator.Uint16Comparator(c, d) != cmp.Compare(c, d) || comparator.OrderedTypeCmp(c, d) != cmp.Compare(c, d) {
						return 0, errf("uint16 comparison of %d and %d", c, d)
					}
				}
				return int64(4 << 16 / step), nil
			}})
		// all exponents and signs of floats, with a few mantissas each
		var fx []float64
		for e := uint64(0); e < 2048; e += uint64(c.Pick(16, 4)) {
			for _, m := range []uint64{0, 1, 1<<52 - 1, 1 << 51} {
				for s := uint64(0); s < 2; s++ {
					fx = append(fx, math.Float64frombits(s<<63|e<<52|m))
				}
			}
		}
		for _, m := range []uint64{0, 1, 1<<52 - 1, 1 << 51} {
			fx = append(fx, math.Float64frombits(2047<<52|m), math.Float64frombits(1<<63|2047<<52|m))
		}
		add(&core.Enum{Name: "float64: all pairs over exponents and signs", N: int64(len(fx)), Show: func(i int64) string { return fmt.Sprint(fx[i]) },
			Run: func(w *core.Worker, i int64) (int64, error) {
				for _, b := range fx {
					if comparator.Float64Comparator(fx[i], b) != cmp.Compare(fx[i], b) {
						return 0, errf("Float64Comparator(%v, %v) = %d", fx[i], b, comparator.Float64Comparator(fx[i], b))
					}
					x, y := float32(fx[i]), float32(b)
					if comparator.Float32Comparator(x, y) != cmp.Compare(x, y) {
						return 0, errf("Float32Comparator(%v, %v) = %d", x, y, comparator.Float32Comparator(x, y))
					}
				}
				return int64(2 * len(fx)), nil
			}})
		return parts
	}
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func trunc(b []byte, n int) []byte { return b[:min(len(b), n)] }

func periodic8(l []uint64) bool {
	for i := 8; i < len(l); i++ {
		if l[i] != l[i-8] {
			return false
		}
	}
	return true
}

func conv[T, F interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr | ~float32 | ~float64
}](l []F) []T {
	var o []T
	for _, x := range l {
		o = append(o, T(x))
	}
	return o
}
func conv2[T, F ~string](l []F) []T {
	var o []T
	for _, x := range l {
		o = append(o, T(x))
	}
	return o
}

// cmpEnum compares a comparator with a reference on all pairs, checks the laws on all triples.
func cmpEnum[T comparable](name string, vals []T, f comparator.Comparator[T], ref func(a, b T) int, gen comparator.Comparator[T]) *core.Enum {
	return &core.Enum{Name: name + ": all pairs and triples of the values", N: int64(len(vals)), Show: func(i int64) string { return fmt.Sprint(vals[i]) },
		Run: func(w *core.Worker, i int64) (int64, error) {
			a := vals[i]
			n := int64(0)
			for _, b := range vals {
				nan := a != a || b != b
				for which, g := range []comparator.Comparator[T]{f, gen} {
					if g == nil || which == 1 && nan {
						continue
					}
					n++
					x := g(a, b)
					nm := [...]string{"comparator", "generic comparator"}[which]
					if x != ref(a, b) {
						return n, errf("%s(%v, %v) = %d, want %d", nm, a, b, x, ref(a, b))
					}
					r := comparator.Reverse(g)
					if y := r(a, b); y != -ref(a, b) || comparator.Reverse(r)(a, b) != x {
						return n, errf("reversed %s(%v, %v) = %d, the %s gives %d", nm, a, b, y, nm, x)
					}
					if g(b, a) != -x {
						return n, errf("%s(%v, %v) = %d and (%v, %v) = %d", nm, a, b, x, b, a, g(b, a))
					}
					if len(vals) > 130 {
						continue
					}
					for _, c := range vals {
						if which == 1 && c != c {
							continue
						}
						if x <= 0 && g(b, c) <= 0 && g(a, c) > 0 {
							return n, errf("%s not transitive: %v, %v, %v", nm, a, b, c)
						}
					}
				}
			}
			return n, nil
		}}
}

// two node names whose first points on the ring are the same (found with a parallel rho search)
var ringTwins = []string{"fa4d130ce5fd8aab", "9612f75324a2ea3c"}

// ringCirclePart: with one point per node the ring is one circle. What a
// removed node held goes to one node, the next one clockwise, and the next
// ones lead around all nodes: no node is next of two, none is skipped.
func ringCirclePart(c Ctx) *core.Enum {
	nn := c.Pick(8, 11)
	K := c.Pick(6000, 40000)
	return &core.Enum{Name: fmt.Sprintf("one replica: the next node of each node, for all sets of at least 2 of %d nodes, %d keys", nn, K), N: 1 << nn, Chunk: 1,
		Show: func(i int64) string { return fmt.Sprintf("nodes %b", i) },
		Run: func(w *core.Worker, i int64) (int64, error) {
			var names []string
			for j := 0; j < nn; j++ {
				if i>>j&1 == 1 {
					names = append(names, fmt.Sprintf("host%d:80", j))
				}
			}
			n := len(names)
			if n < 2 {
				return 0, nil
			}
			keys := ringKeys(K)
			k := ketama.New(ringOpts(i&1 == 1, 1)...)
			k.Add(names...)
			base, err := placement(k, names, keys)
			if err != nil {
				return 0, err
			}
			ops := int64(K)
			next := make([]int, n)
			for j := range names {
				next[j] = -1
				k.Remove(names[j])
				for x, p := range base {
					if int(p) != j {
						continue
					}
					ops++
					m, ok := k.Get(keys[x])
					to := slices.Index(names, m)
					if !ok || to < 0 || to == j {
						return ops, errf("key %q is placed on %q after the removal of %q", keys[x], m, names[j])
					}
					if next[j] >= 0 && next[j] != to {
						return ops, errf("one replica per node: the keys of the removed node %q go to %q and to %q", names[j], names[next[j]], names[to])
					}
					next[j] = to
				}
				k.Add(names[j])
				if next[j] < 0 {
					return ops, nil // its arc is too short for one of the keys: nothing to see
				}
			}
			at, steps := 0, 0
			for {
				at = next[at]
				steps++
				if at == 0 {
					break
				}
				if steps > n {
					break
				}
			}
			if at != 0 || steps != n {
				return ops, errf("one replica per node: the nodes that take over the keys of a removed one do not form one circle: %v of %v", next, names)
			}
			return ops, nil
		}}
}

func ringTwinsPart() *core.Enum {
	return &core.Enum{Name: "two nodes that share a point of the ring", N: 1, Show: func(int64) string { return fmt.Sprint(ringTwins) },
		Run: func(w *core.Worker, _ int64) (int64, error) {
			keys := ringKeys(500)
			ops := int64(0)
			run := func(present int, steps ...int) ([]int8, error) {
				k := ketama.New()
				for _, s := range steps {
					if s >= 0 {
						k.Add(ringTwins[s])
					} else {
						k.Remove(ringTwins[^s])
					}
				}
				p, err := placement(k, ringTwins, keys)
				for i := range p {
					ops++
					if p[i] < 0 || present>>p[i]&1 == 0 {
						return p, errf("history %v: key %q is placed on node %d", steps, keys[i], p[i])
					}
				}
				return p, err
			}
			ab, e1 := run(3, 0, 1)
			ba, e2 := run(3, 1, 0)
			aba, e3 := run(3, 0, 1, ^0, 0)
			_, e4 := run(2, 0, 1, ^0)
			_, e5 := run(1, 0, 1, ^1)
			if err := first(e1, e2, e3, e4, e5); err != nil {
				return ops, err
			}
			for i := range ab {
				if ab[i] != ba[i] || ab[i] != aba[i] {
					w.E.Finding("shared-point", fmt.Sprintf("nodes %q and %q share a point of the ring: key %q is placed on node %d, %d or %d depending on the order of additions and removals", ringTwins[0], ringTwins[1], keys[i], ab[i], ba[i], aba[i]))
					break
				}
			}
			return ops, nil
		}}
}
