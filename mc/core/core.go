// Package core is the exploration engine: explicit-state breadth-first search
// over operation sequences executed on the real code, and exhaustive
// enumeration of finite input spaces.
//
// Every execution starts from a freshly built object and replays a complete
// history on it, so each explored trace is a trace of the implementation.
// States are recognised by a canonical fingerprint of the implementation's
// object graph together with the state of the reference model.
package core

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verifmc/snap"
)

// Machine is one live instance: the object under test and its reference model.
type Machine interface {
	// Ops appends the codes of the operations to explore in the current state.
	Ops(buf []uint32) []uint32
	// Do performs one operation on implementation and model and compares what they return.
	Do(op uint32) error
	// Check compares everything observable of the implementation with the model.
	Check() error
	// State feeds implementation and model to the fingerprint.
	State(h *snap.Hasher)
	// Name renders an operation.
	Name(op uint32) string
}

// Spec is one family of histories to explore.
type Spec struct {
	Name  string
	Roots int // number of initial states
	Root  func(root int) Machine
	Depth int // longest history
	Max   int // most states to store (0: no limit)
	// RootDepth, if set, gives the depth for one root.
	RootDepth func(root int) int
}

// Enum is one finite space of inputs.
type Enum struct {
	Name string
	N    int64
	// Run executes case i and returns the number of executions of the code under test.
	Run func(w *Worker, i int64) (int64, error)
	// Show renders case i.
	Show func(i int64) string
	// Stride > 1 makes the cases of a chunk handed to one worker that many (load balancing).
	Chunk int64
}

// Check is one property: a list of *Spec, *Enum and *Custom.
type Check struct {
	Prop  string
	Parts []any
}

// Failure describes a violation.
type Failure struct {
	Prop    string   `json:"property"`
	Part    string   `json:"part"`
	PartIdx int      `json:"part_idx"`
	Kind    string   `json:"kind"` // history | input | schedule
	Root    int      `json:"root"`
	Path    []uint32 `json:"path,omitempty"`
	Case    int64    `json:"case,omitempty"`
	Steps   []string `json:"steps"`
	What    string   `json:"what"`
	Tier    string   `json:"tier"`
	Repro   string   `json:"reproduced,omitempty"`
}

// PartStats is what one part covered.
type PartStats struct {
	Name        string `json:"name"`
	Kind        string `json:"kind"`
	States      int64  `json:"states"`
	Transitions int64  `json:"transitions"`
	Traces      int64  `json:"traces"`
	Depth       int    `json:"depth"`
	Exhaustive  bool   `json:"exhaustive"`
	Note        string `json:"note,omitempty"`
	Frontier    []int  `json:"frontier,omitempty"`
	WallS       float64
}

// Result is what a child process reports.
type Result struct {
	Parts    []PartStats `json:"parts"`
	Samples  []any       `json:"samples"`
	Failure  *Failure    `json:"failure,omitempty"`
	Findings []Finding   `json:"findings,omitempty"`
}

// Worker is per-worker context.
type Worker struct {
	ID   int
	slot []byte
	seq  uint32
	H    *snap.Hasher
	E    *Engine
}

// Custom is a part with its own exploration loop.
type Custom struct {
	Name string
	Run  func(e *Engine, part int)
	// Reexec replays a failure of this part.
	Reexec func(f *Failure) error
	Steps  func(f *Failure) []string
}

// SlotSize is the size of one worker's slot in the crash file.
const SlotSize = 4096

// MaxWorkers bounds the number of slots.
const MaxWorkers = 64

// Engine runs a check.
type Engine struct {
	Prop     string
	Tier     string
	Workers  []*Worker
	Deadline time.Time
	Res      Result
	mu       sync.Mutex
	stop     atomic.Bool
}

// Shard says which cases of the enumerations this process goes through: those that leave the first number when divided
// by the second one.
var Shard = [2]int{0, 1}

// ErrStop is returned by an enumeration to end it early without failure.
var ErrStop = errors.New("stop")

// NewEngine maps the slot file and prepares the workers.
func NewEngine(prop, tier, slots string, n int, budget time.Duration) *Engine {
	var mem []byte
	if slots != "" {
		f, err := os.OpenFile(slots, os.O_RDWR|os.O_CREATE, 0o644)
		if err != nil {
			panic(err)
		}
		f.Truncate(SlotSize * MaxWorkers)
		mem, err = syscall.Mmap(int(f.Fd()), 0, SlotSize*MaxWorkers, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		if err != nil {
			panic(err)
		}
		f.Close()
	} else {
		mem = make([]byte, SlotSize*MaxWorkers)
	}
	e := &Engine{Prop: prop, Tier: tier, Deadline: time.Now().Add(budget)}
	for i := 0; i < n; i++ {
		e.Workers = append(e.Workers, &Worker{ID: i, slot: mem[i*SlotSize : (i+1)*SlotSize], H: snap.New(), E: e})
	}
	return e
}

// Mark records in the slot what the worker is about to execute.
//
//	0 seq | 4 part | 8 kind(1 history,2 case) | 12 root | 16 case | 24 n | 28 ops...
func (w *Worker) Mark(part int, kind uint32, root int, cas int64, path []uint32) {
	s := w.slot
	w.seq++
	binary.LittleEndian.PutUint32(s[4:], uint32(part))
	binary.LittleEndian.PutUint32(s[8:], kind)
	binary.LittleEndian.PutUint32(s[12:], uint32(root))
	binary.LittleEndian.PutUint64(s[16:], uint64(cas))
	n := len(path)
	if n > (SlotSize-28)/4 {
		n = (SlotSize - 28) / 4
	}
	binary.LittleEndian.PutUint32(s[24:], uint32(n))
	for i := 0; i < n; i++ {
		binary.LittleEndian.PutUint32(s[28+4*i:], path[i])
	}
	atomic.AddUint32((*uint32)(ptr(s)), 1)
}

// Tick tells the watchdog that a long case is making progress.
func (w *Worker) Tick() { atomic.AddUint32((*uint32)(ptr(w.slot)), 1) }

// Idle marks the slot as not executing anything.
func (w *Worker) Idle() {
	binary.LittleEndian.PutUint32(w.slot[8:], 0)
	atomic.AddUint32((*uint32)(ptr(w.slot)), 1)
}

// Panicked wraps a panic of the code under test.
type Panicked struct {
	V     any
	Stack string
}

func (p Panicked) Error() string { return fmt.Sprintf("panic: %v\n%s", p.V, p.Stack) }

// Guard runs f and turns a panic into an error.
func Guard(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = Panicked{r, shortStack()}
		}
	}()
	return f()
}

// PanicVal runs f and returns whether it panicked, and with what.
func PanicVal(f func()) (v any, panicked bool) {
	panicked = true
	defer func() { v = recover() }()
	f()
	return nil, false
}

func shortStack() string {
	lines := strings.Split(string(debug.Stack()), "\n")
	var out []string
	for i := 0; i+1 < len(lines); i++ {
		if strings.Contains(lines[i+1], "gostl") || strings.HasPrefix(lines[i], "github.com/liyue201") {
			out = append(out, strings.TrimSpace(lines[i]))
		}
		if len(out) >= 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// TimeUp says whether the internal deadline has passed.
func (e *Engine) TimeUp() bool { return time.Now().After(e.Deadline) }

// Stopped says whether the engine is to stop.
func (e *Engine) Stopped() bool { return e.stop.Load() }

// Fail records the first violation.
func (e *Engine) Fail(f *Failure) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.Res.Failure == nil {
		f.Prop, f.Tier = e.Prop, e.Tier
		e.Res.Failure = f
	}
	e.stop.Store(true)
}

// Finding records a failure that has an identifier of its own. Whether it is a
// known finding or a violation is decided by the list of known findings.
func (e *Engine) Finding(id, what string) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for _, f := range e.Res.Findings {
		if f.ID == id {
			return
		}
	}
	e.Res.Findings = append(e.Res.Findings, Finding{id, what})
}

// Finding is a failure with an identifier.
type Finding struct {
	ID   string `json:"id"`
	What string `json:"what"`
}

// Sample keeps an explored case for the evidence.
func (e *Engine) Sample(s any) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if len(e.Res.Samples) < 40 {
		e.Res.Samples = append(e.Res.Samples, s)
	}
}

type rec struct {
	parent int32
	op     uint32
	root   int32
	depth  int32
}

type shard struct {
	mu sync.Mutex
	m  map[snap.Digest]struct{}
	_  [40]byte
}

type explorer struct {
	e       *Engine
	part    int
	sp      *Spec
	shards  [256]shard
	mu      sync.Mutex
	recs    []rec
	trans   atomic.Int64
	full    atomic.Bool
	timeout atomic.Bool
}

// path rebuilds the history of a state.
func (x *explorer) path(id int32, buf []uint32) (int, []uint32) {
	buf = buf[:0]
	root := int(x.recs[id].root)
	for x.recs[id].parent >= 0 {
		buf = append(buf, x.recs[id].op)
		id = x.recs[id].parent
	}
	for i, j := 0, len(buf)-1; i < j; i, j = i+1, j-1 {
		buf[i], buf[j] = buf[j], buf[i]
	}
	return root, buf
}

func (x *explorer) add(d snap.Digest) bool {
	s := &x.shards[d[0]&255]
	s.mu.Lock()
	defer s.mu.Unlock()
	if _, ok := s.m[d]; ok {
		return false
	}
	s.m[d] = struct{}{}
	return true
}

// Explore searches all histories of a spec breadth first.
func (e *Engine) Explore(part int, sp *Spec) {
	t0 := time.Now()
	x := &explorer{e: e, part: part, sp: sp}
	for i := range x.shards {
		x.shards[i].m = map[snap.Digest]struct{}{}
	}
	st := PartStats{Name: sp.Name, Kind: "histories", Exhaustive: true}
	var frontier []int32
	// roots
	roots := make([]int32, sp.Roots)
	x.parallel(sp.Roots, func(w *Worker, i int) {
		w.Mark(part, 1, i, 0, nil)
		var d snap.Digest
		err := Guard(func() error {
			m := sp.Root(i)
			w.H.Reset()
			m.State(w.H)
			d = w.H.Sum()
			return m.Check()
		})
		if err != nil {
			x.fail(i, nil, err)
			return
		}
		if x.add(d) {
			x.mu.Lock()
			roots[i] = 1
			x.mu.Unlock()
		}
	})
	for i, ok := range roots {
		if ok != 0 {
			frontier = append(frontier, int32(len(x.recs)))
			x.recs = append(x.recs, rec{-1, 0, int32(i), 0})
		}
	}
	depth := 0
	for len(frontier) > 0 && !e.Stopped() {
		st.Frontier = append(st.Frontier, len(frontier))
		if depth >= sp.Depth {
			break
		}
		if x.full.Load() || x.timeout.Load() {
			break
		}
		next := x.level(frontier)
		depth++
		frontier = next
	}
	if x.full.Load() || x.timeout.Load() {
		st.Exhaustive = false
		if x.timeout.Load() {
			st.Note = "stopped by the internal deadline"
		} else {
			st.Note = fmt.Sprintf("stopped at %d states", sp.Max)
		}
	}
	st.Depth = depth
	st.States = int64(len(x.recs))
	st.Transitions = x.trans.Load()
	if !e.Stopped() {
		st.Traces = x.validate()
	}
	st.WallS = time.Since(t0).Seconds()
	for i := range x.shards {
		x.shards[i].m = nil
	}
	e.Res.Parts = append(e.Res.Parts, st)
	x.recs = nil
	runtime.GC()
}

func (x *explorer) parallel(n int, f func(w *Worker, i int)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	for _, w := range x.e.Workers {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			for {
				i := int(next.Add(1) - 1)
				if i >= n || x.e.Stopped() {
					w.Idle()
					return
				}
				f(w, i)
			}
		}(w)
	}
	wg.Wait()
}

// level expands every state of a frontier.
func (x *explorer) level(frontier []int32) []int32 {
	sp, e := x.sp, x.e
	type out struct{ recs []rec }
	outs := make([]out, len(e.Workers))
	const chunk = 16
	n := (len(frontier) + chunk - 1) / chunk
	var total atomic.Int64
	total.Store(int64(len(x.recs)))
	x.parallel(n, func(w *Worker, ci int) {
		lo, hi := ci*chunk, (ci+1)*chunk
		if hi > len(frontier) {
			hi = len(frontier)
		}
		var path, ops []uint32
		for _, id := range frontier[lo:hi] {
			if x.timeout.Load() || x.full.Load() || e.Stopped() {
				return
			}
			if e.TimeUp() {
				x.timeout.Store(true)
				return
			}
			var root int
			root, path = x.path(id, path)
			if sp.RootDepth != nil && len(path) >= sp.RootDepth(root) {
				continue
			}
			np := len(path)
			var m Machine
			w.Mark(x.part, 1, root, 0, path)
			err := Guard(func() error {
				var err error
				m, err = x.replay(root, path)
				if err != nil {
					return err
				}
				ops = m.Ops(ops[:0])
				return nil
			})
			if err != nil {
				x.fail(root, path, err)
				return
			}
			for k, op := range ops {
				path = append(path[:np], op)
				w.Mark(x.part, 1, root, 0, path)
				var d snap.Digest
				fresh := false
				err := Guard(func() error {
					if k > 0 || m == nil {
						var err error
						if m, err = x.replay(root, path[:np]); err != nil {
							return err
						}
					}
					mm := m
					m = nil
					if err := mm.Do(op); err != nil {
						return err
					}
					w.H.Reset()
					mm.State(w.H)
					d = w.H.Sum()
					fresh = x.add(d)
					if fresh {
						return mm.Check()
					}
					return nil
				})
				x.trans.Add(1)
				if err != nil {
					x.fail(root, path, err)
					return
				}
				if fresh {
					outs[w.ID].recs = append(outs[w.ID].recs, rec{id, op, int32(root), int32(np + 1)})
					if sp.Max > 0 && total.Add(1) >= int64(sp.Max) {
						x.full.Store(true)
					}
				}
			}
			path = path[:np]
		}
	})
	var next []int32
	for i := range outs {
		for _, r := range outs[i].recs {
			next = append(next, int32(len(x.recs)))
			x.recs = append(x.recs, r)
		}
	}
	return next
}

func (x *explorer) replay(root int, path []uint32) (Machine, error) {
	m := x.sp.Root(root)
	for _, op := range path {
		if err := m.Do(op); err != nil {
			return nil, fmt.Errorf("in the replayed prefix: %w", err)
		}
	}
	return m, nil
}

func (x *explorer) fail(root int, path []uint32, err error) {
	x.e.Fail(&Failure{Part: x.sp.Name, Kind: "history", Root: root, Path: append([]uint32(nil), path...), What: err.Error()})
}

// validate re-executes the longest histories, this time with every observation
// made after every step on the same object, and compares the final fingerprint
// with the one the search computed for the unobserved execution.
func (x *explorer) validate() int64 {
	n := len(x.recs)
	want := 20000
	step := 1
	if n > want {
		step = n / want
	}
	var ids []int32
	for i := n - 1; i >= 0 && len(ids) < want; i -= step {
		ids = append(ids, int32(i))
	}
	var done atomic.Int64
	x.parallel(len(ids), func(w *Worker, i int) {
		if i&63 == 0 && x.e.TimeUp() {
			return
		}
		root, path := x.path(ids[i], nil)
		w.Mark(x.part, 3, root, 0, path)
		err := Guard(func() error { return observeAll(x.sp, root, path) })
		if err != nil {
			x.e.Fail(&Failure{Part: x.sp.Name, Kind: "history", Root: root, Path: append([]uint32(nil), path...), What: "observing after every step: " + err.Error()})
			return
		}
		done.Add(1)
		if i < 3 {
			m := x.sp.Root(root)
			x.e.Sample(map[string]any{"part": x.sp.Name, "root": root, "history": names(m, path)})
		}
	})
	return done.Load()
}

func names(m Machine, path []uint32) []string {
	var s []string
	for _, op := range path {
		s = append(s, m.Name(op))
	}
	return s
}

func observeAll(sp *Spec, root int, path []uint32) error {
	m := sp.Root(root)
	if err := m.Check(); err != nil {
		return fmt.Errorf("initial state: %w", err)
	}
	for i, op := range path {
		if err := m.Do(op); err != nil {
			return fmt.Errorf("step %d %s: %w", i, m.Name(op), err)
		}
		if err := m.Check(); err != nil {
			return fmt.Errorf("after step %d %s: %w", i, m.Name(op), err)
		}
	}
	return nil
}

// Enumerate runs every case of an enumeration.
func (e *Engine) Enumerate(part int, en *Enum) {
	t0 := time.Now()
	st := PartStats{Name: en.Name, Kind: "inputs", Exhaustive: true}
	chunk := en.Chunk
	if chunk == 0 {
		chunk = en.N / int64(len(e.Workers)*64)
		if chunk < 1 {
			chunk = 1
		}
		if chunk > 4096 {
			chunk = 4096
		}
	}
	mine := (en.N - int64(Shard[0]) + int64(Shard[1]) - 1) / int64(Shard[1])
	var next, cases, execs atomic.Int64
	var timeout atomic.Bool
	var wg sync.WaitGroup
	for _, w := range e.Workers {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			defer w.Idle()
			for {
				lo := next.Add(chunk) - chunk
				if lo >= mine || e.Stopped() {
					return
				}
				if e.TimeUp() {
					timeout.Store(true)
					return
				}
				hi := min(lo+chunk, mine)
				for j := lo; j < hi && !e.Stopped(); j++ {
					i := j*int64(Shard[1]) + int64(Shard[0])
					w.Mark(part, 2, 0, i, nil)
					var k int64
					err := Guard(func() error {
						var err error
						k, err = en.Run(w, i)
						return err
					})
					execs.Add(k)
					cases.Add(1)
					if err != nil {
						f := &Failure{Part: en.Name, Kind: "input", Case: i, What: err.Error()}
						if en.Show != nil {
							f.Steps = []string{en.Show(i)}
						}
						e.Fail(f)
						return
					}
				}
			}
		}(w)
	}
	wg.Wait()
	st.States, st.Transitions = cases.Load(), execs.Load()
	if timeout.Load() {
		st.Exhaustive = false
		st.Note = fmt.Sprintf("stopped by the internal deadline after %d of %d cases", cases.Load(), mine)
	}
	// conformance: re-run a spread of the cases, one after the other on one worker, and ask for the same verdict
	if !e.Stopped() {
		step := max(en.N/1000, 1) * int64(Shard[1])
		w := e.Workers[0]
		took, again := time.Since(t0), time.Now()
		for i := int64(Shard[0]); i < en.N && !e.TimeUp() && time.Since(again) < took+100*time.Millisecond; i += step {
			w.Mark(part, 2, 0, i, nil)
			err := Guard(func() error { _, err := en.Run(w, i); return err })
			if err != nil {
				e.Fail(&Failure{Part: en.Name, Kind: "input", Case: i, What: err.Error()})
				break
			}
			st.Traces++
			if en.Show != nil && (i == 0 || i == step*3 || i == step*499) {
				e.Sample(map[string]any{"part": en.Name, "case": i, "input": en.Show(i)})
			}
		}
		w.Idle()
	}
	st.WallS = time.Since(t0).Seconds()
	e.Res.Parts = append(e.Res.Parts, st)
}

// Run executes all parts of a check.
func (e *Engine) Run(c *Check) {
	for i, p := range c.Parts {
		if e.Stopped() {
			break
		}
		switch p := p.(type) {
		case *Spec:
			e.Explore(i, p)
		case *Enum:
			e.Enumerate(i, p)
		case *Custom:
			p.Run(e, i)
		default:
			panic("unknown part")
		}
	}
	if f := e.Res.Failure; f != nil {
		e.confirm(c, f)
	}
}

// confirm re-executes a failure and fills in the rendered steps.
func (e *Engine) confirm(c *Check, f *Failure) {
	n, k := 20, 0
	for i := 0; i < n; i++ {
		if Reexec(c, f, e.Workers[0]) != nil {
			k++
		}
	}
	f.Repro = fmt.Sprintf("%d of %d re-executions", k, n)
	f.Steps = Steps(c, f)
}

// Steps renders a failure's history.
func Steps(c *Check, f *Failure) (out []string) {
	defer func() { recover() }()
	for _, p := range c.Parts {
		switch p := p.(type) {
		case *Spec:
			if p.Name == f.Part {
				m := p.Root(f.Root)
				for _, op := range f.Path {
					out = append(out, m.Name(op))
				}
				return out
			}
		case *Enum:
			if p.Name == f.Part && p.Show != nil {
				return []string{p.Show(f.Case)}
			}
		case *Custom:
			if p.Name == f.Part && p.Steps != nil {
				return p.Steps(f)
			}
		}
	}
	return nil
}

// Reexec replays a failure and returns the error it produces, if any.
func Reexec(c *Check, f *Failure, w *Worker) error {
	for _, p := range c.Parts {
		switch p := p.(type) {
		case *Spec:
			if p.Name == f.Part {
				err := Guard(func() error {
					m := p.Root(f.Root)
					for i, op := range f.Path {
						if err := m.Do(op); err != nil {
							return fmt.Errorf("step %d %s: %w", i, m.Name(op), err)
						}
					}
					return m.Check()
				})
				if err == nil {
					err = Guard(func() error { return observeAll(p, f.Root, f.Path) })
				}
				return err
			}
		case *Enum:
			if p.Name == f.Part {
				return Guard(func() error { _, err := p.Run(w, f.Case); return err })
			}
		case *Custom:
			if p.Name == f.Part && p.Reexec != nil {
				return p.Reexec(f)
			}
		}
	}
	return nil
}

// PartName returns the name of part i.
func PartName(c *Check, i int) string {
	if i < 0 || i >= len(c.Parts) {
		return ""
	}
	switch p := c.Parts[i].(type) {
	case *Spec:
		return p.Name
	case *Enum:
		return p.Name
	case *Custom:
		return p.Name
	}
	return ""
}

// WriteJSON writes v to a file.
func WriteJSON(path string, v any) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

// SortedKeys returns the keys of m in order.
func SortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
