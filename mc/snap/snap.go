// Package snap fingerprints the complete object graph of a live Go value,
// unexported fields, cycles, shared and interior pointers included. It knows
// nothing about the code under test: the layout comes from reflect, so it
// survives any refactoring of the hashed types.
//
// The fingerprint is canonical: pointers are numbered in order of first visit,
// values of type Val (opaque element identities) likewise, and values of type
// Key (of which only the order matters) are replaced by their rank. Two states
// that differ only by addresses, by a renaming of elements or by a monotone
// change of keys therefore have the same fingerprint.
//
// A fingerprint is only ever used to recognise an already visited state. Too
// coarse a fingerprint can hide states from the search, it cannot raise an alarm.
package snap

import (
	"encoding/binary"
	"hash/maphash"
	"math"
	"reflect"
	"slices"
	"sort"
	"strings"
	"unsafe"
)

// Val is the element type containers are instantiated with: opaque, only its identity matters.
type Val int32

// Key is the key type of ordered containers: only its rank matters.
type Key float64

var (
	valType = reflect.TypeOf(Val(0))
	keyType = reflect.TypeOf(Key(0))
)

type typeInfo struct {
	t      reflect.Type
	plain  bool // no pointers, no Val, no Key: raw bytes
	opaque bool // not looked into
	fields []fieldInfo
	kind   reflect.Kind
	elem   *typeInfo
	n      int
}
type fieldInfo struct {
	off uintptr
	ti  *typeInfo
}
type seenRegion struct {
	id   int
	size uintptr
	nth  uint32
}
type todoItem struct {
	p unsafe.Pointer
	t *typeInfo
	n int
}

// Hasher computes fingerprints; not safe for concurrent use.
type Hasher struct {
	types map[reflect.Type]*typeInfo
	seen  map[uintptr]seenRegion
	todo  []todoItem
	vals  map[Val]uint32
	buf   []byte
	keys  []Key
	kpos  []int
	foot  uintptr
	// Opaque counts the opaque objects met (part of the state that is not fingerprinted).
	Opaque int
}

// New returns a Hasher.
func New() *Hasher {
	return &Hasher{types: map[reflect.Type]*typeInfo{}, seen: map[uintptr]seenRegion{}, vals: map[Val]uint32{}}
}

// Digest is a 128-bit fingerprint.
type Digest [2]uint64

var seed1, seed2 = maphash.MakeSeed(), maphash.MakeSeed()

// Reset starts a new fingerprint.
func (h *Hasher) Reset() {
	clear(h.seen)
	clear(h.vals)
	h.todo = h.todo[:0]
	h.buf = h.buf[:0]
	h.keys = h.keys[:0]
	h.kpos = h.kpos[:0]
	h.foot = 0
}

// Sum returns the fingerprint of everything added since Reset.
func (h *Hasher) Sum() Digest {
	h.rank()
	return Digest{maphash.Bytes(seed1, h.buf), maphash.Bytes(seed2, h.buf)}
}

// Canon returns the canonical serialisation of everything added since Reset.
func (h *Hasher) Canon() string { h.rank(); return string(h.buf) }

func (h *Hasher) rank() {
	if len(h.kpos) == 0 {
		return
	}
	ks := append([]Key(nil), h.keys...)
	slices.Sort(ks)
	ks = slices.Compact(ks)
	for i, p := range h.kpos {
		r, _ := slices.BinarySearch(ks, h.keys[i])
		binary.LittleEndian.PutUint32(h.buf[p:], uint32(r))
	}
	h.kpos = h.kpos[:0]
}

// Int adds a number.
func (h *Hasher) Int(x int) { h.u64(uint64(x)) }

// Str adds a string.
func (h *Hasher) Str(s string) {
	h.u32(uint32(len(s)))
	h.buf = append(h.buf, s...)
}

// Val adds an element identity. 0 stands for itself.
func (h *Hasher) Val(v Val) {
	if v == 0 {
		h.u32(0)
		return
	}
	l, ok := h.vals[v]
	if !ok {
		l = uint32(len(h.vals) + 1)
		h.vals[v] = l
	}
	h.u32(l)
}

// Vals adds a sequence of identities.
func (h *Hasher) Vals(vs []Val) {
	h.u32(uint32(len(vs)))
	for _, v := range vs {
		h.Val(v)
	}
}

// Key adds a key.
func (h *Hasher) Key(k Key) {
	if math.IsNaN(float64(k)) {
		h.u32(0xffffffff)
		return
	}
	h.kpos = append(h.kpos, len(h.buf))
	h.keys = append(h.keys, k)
	h.u32(0)
}

// Graph adds everything reachable from the pointer p.
func (h *Hasher) Graph(p any) {
	rv := reflect.ValueOf(p)
	if rv.Kind() != reflect.Pointer {
		// put it into memory of our own
		q := reflect.New(rv.Type())
		q.Elem().Set(rv)
		rv = q
	}
	h.ptr(rv.UnsafePointer(), h.info(rv.Type().Elem()), 1)
	for i := 0; i < len(h.todo); i++ {
		t := h.todo[i]
		h.foot += t.t.t.Size() * uintptr(t.n)
		sz := t.t.t.Size()
		if t.t.plain {
			h.buf = append(h.buf, unsafe.Slice((*byte)(t.p), sz*uintptr(t.n))...)
			continue
		}
		for j := 0; j < t.n; j++ {
			h.val(t.t, unsafe.Add(t.p, uintptr(j)*sz))
		}
	}
	h.todo = h.todo[:0]
}

// Footprint returns the number of bytes reachable from p.
func (h *Hasher) Footprint(p any) uintptr {
	h.Reset()
	h.Graph(p)
	return h.foot
}

func opaqueType(t reflect.Type) bool {
	p := t.PkgPath()
	return p == "sync" || strings.HasPrefix(p, "sync/") || p == "time" || strings.HasPrefix(p, "math/rand") ||
		strings.HasPrefix(p, "verifmc/v")
}

func (h *Hasher) info(t reflect.Type) *typeInfo {
	if ti := h.types[t]; ti != nil {
		return ti
	}
	ti := &typeInfo{t: t, kind: t.Kind()}
	h.types[t] = ti
	if t == valType || t == keyType {
		return ti
	}
	if opaqueType(t) {
		ti.opaque = true
		return ti
	}
	switch t.Kind() {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr,
		reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128:
		ti.plain = true
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		ti.opaque = true
	case reflect.Array:
		ti.elem = h.info(t.Elem())
		ti.n = t.Len()
		ti.plain = ti.elem.plain || ti.n == 0
	case reflect.Struct:
		ti.plain = true
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.Name == "_" {
				continue
			}
			fi := h.info(f.Type)
			ti.plain = ti.plain && fi.plain
			ti.fields = append(ti.fields, fieldInfo{f.Offset, fi})
		}
	case reflect.Pointer, reflect.Slice:
		ti.elem = h.info(t.Elem())
	}
	return ti
}

type sliceHdr struct {
	data     unsafe.Pointer
	len, cap int
}
type iface struct{ tab, data unsafe.Pointer }

func (h *Hasher) u64(x uint64) { h.buf = binary.LittleEndian.AppendUint64(h.buf, x) }
func (h *Hasher) u32(x uint32) { h.buf = binary.LittleEndian.AppendUint32(h.buf, x) }

// ptr writes the visit number of the pointed-to memory and queues it on first
// visit. The same address seen with a larger extent (outer struct, longer
// slice) is queued again.
func (h *Hasher) ptr(p unsafe.Pointer, elem *typeInfo, n int) {
	if p == nil {
		h.u32(0xffffffff)
		return
	}
	sz := elem.t.Size() * uintptr(n)
	if sz == 0 {
		h.u32(0xfffffffe)
		return
	}
	b := uintptr(p)
	r, ok := h.seen[b]
	if !ok {
		r = seenRegion{id: len(h.seen), size: sz}
		h.seen[b] = r
		h.u32(uint32(r.id))
		h.todo = append(h.todo, todoItem{p, elem, n})
		return
	}
	h.u32(uint32(r.id))
	if r.size < sz {
		h.u32(uint32(sz))
		r.size = sz
		h.seen[b] = r
		h.todo = append(h.todo, todoItem{p, elem, n})
	}
}

func (h *Hasher) val(ti *typeInfo, p unsafe.Pointer) {
	switch {
	case ti.t == valType:
		h.Val(*(*Val)(p))
		return
	case ti.t == keyType:
		h.Key(*(*Key)(p))
		return
	case ti.opaque:
		h.Opaque++
		h.buf = append(h.buf, 0xaa)
		return
	case ti.plain && ti.kind != reflect.Struct:
		h.buf = append(h.buf, unsafe.Slice((*byte)(p), ti.t.Size())...)
		return
	}
	switch ti.kind {
	case reflect.Array:
		sz := ti.elem.t.Size()
		for i := 0; i < ti.n; i++ {
			h.val(ti.elem, unsafe.Add(p, uintptr(i)*sz))
		}
	case reflect.Struct:
		for i := range ti.fields {
			h.val(ti.fields[i].ti, unsafe.Add(p, ti.fields[i].off))
		}
	case reflect.Pointer:
		if ti.elem.opaque {
			h.Opaque++
			return
		}
		h.ptr(*(*unsafe.Pointer)(p), ti.elem, 1)
	case reflect.Slice:
		s := (*sliceHdr)(p)
		h.u32(uint32(s.len))
		h.u32(uint32(s.cap))
		if s.cap > 0 {
			h.ptr(s.data, ti.elem, s.cap)
		}
	case reflect.String:
		h.Str(*(*string)(p))
	case reflect.Interface:
		v := reflect.NewAt(ti.t, p).Elem().Elem()
		if !v.IsValid() {
			h.u32(0xffffffff)
			return
		}
		di := h.info(v.Type())
		h.buf = append(h.buf, di.t.String()...)
		switch {
		case di.opaque:
			h.Opaque++
		case di.kind == reflect.Pointer:
			if di.elem.opaque {
				h.Opaque++
				return
			}
			h.ptr((*iface)(p).data, di.elem, 1)
		case di.kind == reflect.Map:
			d := (*iface)(p).data
			h.val(di, unsafe.Pointer(&d))
		case di.kind == reflect.Struct && di.t.NumField() == 1, di.kind == reflect.Array && di.n == 1:
			// may be stored directly in the interface word
			q := reflect.New(di.t)
			if v.CanInterface() {
				q.Elem().Set(v)
				h.val(di, q.UnsafePointer())
			} else {
				h.Opaque++
			}
		default:
			h.foot += di.t.Size()
			h.val(di, (*iface)(p).data)
		}
	case reflect.Map:
		h.hashMap(ti, p)
	default:
		h.buf = append(h.buf, unsafe.Slice((*byte)(p), ti.t.Size())...)
	}
}

// hashMap adds the entries of a map in the order of their keys' bytes.
func (h *Hasher) hashMap(ti *typeInfo, p unsafe.Pointer) {
	m := reflect.NewAt(ti.t, p).Elem()
	if m.IsNil() {
		h.u32(0xffffffff)
		return
	}
	id := *(*uintptr)(p)
	if r, ok := h.seen[id]; ok {
		h.u32(uint32(r.id))
		return
	}
	h.seen[id] = seenRegion{id: len(h.seen), size: 1}
	h.u32(uint32(m.Len()))
	ki, vi := h.info(ti.t.Key()), h.info(ti.t.Elem())
	h.foot += (ti.t.Key().Size() + ti.t.Elem().Size()) * uintptr(m.Len())
	type ent struct {
		k    string
		kp   unsafe.Pointer
		vp   unsafe.Pointer
		krep string
	}
	var es []ent
	it := m.MapRange()
	for it.Next() {
		k := reflect.New(ti.t.Key())
		k.Elem().SetIterKey(it)
		v := reflect.New(ti.t.Elem())
		v.Elem().SetIterValue(it)
		es = append(es, ent{kp: k.UnsafePointer(), vp: v.UnsafePointer()})
		e := &es[len(es)-1]
		switch {
		case ki.t == valType:
			l, ok := h.vals[*(*Val)(e.kp)]
			if !ok {
				l = 1 << 30
			}
			e.k = string(binary.BigEndian.AppendUint32(nil, l))
		case ki.t == keyType:
			f := float64(*(*Key)(e.kp))
			u := math.Float64bits(f)
			if f >= 0 {
				u |= 1 << 63
			} else {
				u = ^u
			}
			e.k = string(binary.BigEndian.AppendUint64(nil, u))
		case ki.kind == reflect.String:
			e.k = *(*string)(e.kp)
		case ki.kind == reflect.Pointer:
			r, ok := h.seen[*(*uintptr)(e.kp)]
			if !ok {
				r.id = 1 << 30
			}
			e.k = string(binary.BigEndian.AppendUint32(nil, uint32(r.id)))
		default:
			e.k = string(unsafe.Slice((*byte)(e.kp), ki.t.Size()))
		}
	}
	sort.Slice(es, func(i, j int) bool { return es[i].k < es[j].k })
	for _, e := range es {
		h.val(ki, e.kp)
		h.val(vi, e.vp)
	}
}
