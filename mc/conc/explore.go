// Package conc explores concurrent use of the containers: every schedule of a
// scenario up to a preemption bound is executed on the real code, and what the
// calls returned and what is left in the end is compared with the sequential
// model in every order the calls could have taken effect in.
package conc

import (
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"

	"verifmc/core"
	"verifmc/vsched"
)

// Op is one call.
type Op struct {
	Code   int
	A      int
	V      int // value, distinct for every call of a scenario
	Name   string
	Events int  // instants at which the call may read its operands: 1, or 2 for operations on two containers
	Mut    bool // changes something
	Arm    int  // the comparator panics at this comparison
}

// SUT is what one execution works on.
type SUT struct {
	// Do performs a call and returns what it returned; late, if set, is evaluated after the end of all threads.
	Do func(o *Op) (out string, late func() string)
	// Final describes what is left.
	Final func() string
}

// Model is the sequential specification.
type Model interface {
	Clone() Model
	// Apply performs event ev of a call; part is what the previous event delivered.
	// The last event returns what the call returns.
	Apply(o *Op, ev int, part string) string
	Final() string
}

// Scenario is one initial state and the calls of each thread.
type Scenario struct {
	Name    string
	Kind    *Kind
	Init    int
	Threads [][]Op
	Bound   int // most preemptions
	Loose   bool
	Sep     bool // every thread has a container of its own
	Sync    bool // threads change at synchronisation only
}

// Kind is one kind of container.
type Kind struct {
	Name  string
	Mk    func(init int) *SUT
	Model func(init int) Model
	Inits int
	Ops   []Op
	// Core are the operations used in larger scenarios (indices into Ops)
	Core []int
	// Bad says that two calls may not be combined.
	Bad func(a, b *Op) bool
	// Plain: made without the goroutine-safe option
	Plain bool
}

type call struct {
	op       *Op
	inv, res int64
	out      string
	late     func() string
	panicked bool
}

// is says whether the call returned what the model says. Where it was cut short
// by its comparator that is a matter of when the implementation compares.
func (c *call) is(want string) bool {
	return c.out == want || c.out == "valid" && want != "none" || c.op.Arm > 0 && !c.op.Mut && c.out == "panic comparator"
}

type runner struct {
	sc    *Scenario
	sut   []*SUT
	calls [vsched.MaxThreads][]call
	fns   []func()
	cache map[string]string // verdicts: "" is fine
}

func newRunner(sc *Scenario) *runner {
	r := &runner{sc: sc, cache: map[string]string{}}
	for t := range sc.Threads {
		ops := sc.Threads[t]
		r.calls[t] = make([]call, len(ops))
		r.fns = append(r.fns, func() {
			cs := r.calls[t]
			for i := range ops {
				vsched.S()
				c := &cs[i]
				c.inv = vsched.Now()
				r.do(t, &ops[i], c)
				c.res = vsched.Now()
			}
		})
	}
	return r
}

func (r *runner) do(t int, o *Op, c *call) {
	own := 0
	if r.sc.Sep {
		own = t
	}
	s := r.sut[own]
	c.panicked = true
	vsched.Call()
	arm[t], looked[t] = o.Arm, false
	defer func() {
		arm[t] = 0
		if c.panicked {
			c.out = panicText(recover())
		}
	}()
	c.out, c.late = s.Do(o)
	c.panicked = false
}

func panicText(v any) string {
	if e, ok := v.(error); ok {
		if _, rt := e.(runtime.Error); rt {
			return "panic"
		}
	}
	if b, ok := v.(boom); ok {
		return "panic " + string(b)
	}
	if v == vsched.Stuck {
		return vsched.Stuck
	}
	return "panic"
}

// boom is what visitors and comparators of the scenarios panic with.
type boom string

// exec runs one schedule and returns a description of what is wrong with it.
func (r *runner) exec(d []vsched.Deviation) (wrong string) {
	r.sut, neighbour = r.sut[:0], nil
	k := 1
	if r.sc.Sep {
		k = len(r.sc.Threads)
	}
	vsched.Fresh()
	if err := core.Guard(func() error {
		for i := 0; i < k; i++ {
			r.sut = append(r.sut, r.sc.Kind.Mk(r.sc.Init))
		}
		return nil
	}); err != nil {
		return "while the initial contents are made: " + err.Error()
	}
	for t := range r.sc.Threads {
		cs := r.calls[t]
		for i := range cs {
			cs[i] = call{op: &r.sc.Threads[t][i]}
		}
	}
	races := vsched.RaceErrors()
	vsched.SyncOnly = r.sc.Sync
	out := vsched.Run(r.fns, d)
	vsched.SyncOnly = false
	switch out {
	case vsched.Deadlock:
		return "deadlock: " + r.where()
	case vsched.TooLong:
		return "a call does not end: " + r.where()
	case vsched.Misuse:
		return "fatal error, " + vsched.Misused() + ": " + r.where()
	}
	if vsched.RaceErrors() != races {
		return "data race"
	}
	// what was returned is looked at, and what is left
	final := ""
	finals := make([]string, len(r.sut))
	err := core.Guard(func() error {
		for t := range r.sc.Threads {
			for i := range r.calls[t] {
				if c := &r.calls[t][i]; c.late != nil {
					c.out = c.late()
				}
			}
		}
		for i, s := range r.sut {
			finals[i] = s.Final()
			final += finals[i] + ";"
		}
		return nil
	})
	if err != nil {
		if r.sc.Loose && !strings.Contains(err.Error(), vsched.Stuck) {
			return ""
		}
		return "after the end of all calls: " + err.Error() + "; " + r.history(final)
	}
	if r.sc.Loose {
		return ""
	}
	if r.sc.Sep {
		for t := range r.sc.Threads {
			if w := r.alone(t, finals[t]); w != "" {
				return w
			}
		}
		return ""
	}
	return r.linear(final)
}

// where tells which calls have not returned.
func (r *runner) where() string {
	var s []string
	for t := range r.sc.Threads {
		for i := range r.calls[t] {
			c := &r.calls[t][i]
			switch {
			case c.inv == 0:
				s = append(s, fmt.Sprintf("thread %d: %s not yet called", t, c.op.Name))
			case c.res == 0:
				s = append(s, fmt.Sprintf("thread %d: %s has not returned", t, c.op.Name))
			default:
				s = append(s, fmt.Sprintf("thread %d: %s = %s", t, c.op.Name, c.out))
			}
		}
	}
	return strings.Join(s, "; ")
}

func (r *runner) history(final string) string {
	var cs []*call
	th := map[*call]int{}
	for t := range r.sc.Threads {
		for i := range r.calls[t] {
			cs = append(cs, &r.calls[t][i])
			th[&r.calls[t][i]] = t
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].inv < cs[j].inv })
	var s []string
	for _, c := range cs {
		s = append(s, fmt.Sprintf("[%d,%d] thread %d: %s = %q", c.inv, c.res, th[c], c.op.Name, c.out))
	}
	return strings.Join(s, "; ") + "; left in the end: " + final
}

// alone compares the calls of one thread with the model of its own container.
func (r *runner) alone(t int, final string) string {
	m := r.sc.Kind.Model(r.sc.Init)
	for i := range r.calls[t] {
		c := &r.calls[t][i]
		part := m.Apply(c.op, 0, "")
		if c.op.Events == 2 {
			part = m.Apply(c.op, 2, part+"\x00"+m.Apply(c.op, 1, ""))
		}
		if !c.is(part) {
			return fmt.Sprintf("thread %d works on a container of its own: %s = %q, want %q", t, c.op.Name, c.out, part)
		}
	}
	if final != m.Final() {
		return fmt.Sprintf("thread %d works on a container of its own: left in the end %s, want %s", t, final, m.Final())
	}
	return ""
}

// linear decides linearizability.
func (r *runner) linear(final string) string {
	var cs []*call
	for t := range r.sc.Threads {
		for i := range r.calls[t] {
			cs = append(cs, &r.calls[t][i])
		}
	}
	var b strings.Builder
	for i, c := range cs {
		b.WriteString(c.out)
		b.WriteByte('|')
		for j, d := range cs {
			if i != j && c.res < d.inv {
				b.WriteByte(byte('a' + j))
			}
		}
		b.WriteByte('/')
	}
	b.WriteString(final)
	key := b.String()
	if v, ok := r.cache[key]; ok {
		if v != "" {
			return v + r.history(final)
		}
		return ""
	}
	done := make([]int8, len(cs)) // bit mask of events done
	part := make([][2]string, len(cs))
	var rec func(m Model, left int) bool
	rec = func(m Model, left int) bool {
		if left == 0 {
			return m.Final()+";" == final
		}
	next:
		for i, c := range cs {
			full := int8(1)<<c.op.Events - 1
			if done[i] == full {
				continue
			}
			for j, d := range cs {
				if j != i && d.res < c.inv && done[j] != int8(1)<<d.op.Events-1 {
					continue next
				}
			}
			for e := 0; e < c.op.Events; e++ {
				if done[i]>>e&1 == 1 {
					continue
				}
				x := m.Clone()
				var p string
				if c.op.Events == 1 {
					p = x.Apply(c.op, 0, "")
				} else {
					p = x.Apply(c.op, e, "")
				}
				part[i][e] = p
				done[i] |= 1 << e
				last := done[i] == full
				ok := true
				if last {
					if c.op.Events == 1 {
						ok = c.is(p)
					} else {
						ok = c.is(x.Apply(c.op, 2, part[i][0]+"\x00"+part[i][1]))
					}
				}
				l := left
				if last {
					l--
				}
				if ok && rec(x, l) {
					return true
				}
				done[i] &^= 1 << e
			}
		}
		return false
	}
	v := ""
	if !rec(r.sc.Kind.Model(r.sc.Init), len(cs)) {
		v = "no order of the calls explains what they returned: "
	}
	if len(r.cache) < 1<<16 {
		r.cache[key] = v
	}
	if v != "" {
		return v + r.history(final)
	}
	return ""
}

// Shard says which scenarios this process explores.
var Shard = [2]int{0, 1}

type todo struct {
	d      []vsched.Deviation
	budget int
}

// Explore makes a part of a check out of scenarios.
func Explore(name string, n int, get func(i int) *Scenario) *core.Custom {
	return &core.Custom{Name: name,
		Run: func(e *core.Engine, part int) {
			t0 := time.Now()
			st := core.PartStats{Name: name, Kind: "schedules", Exhaustive: true}
			w := e.Workers[0]
			for i := Shard[0]; i < n && !e.Stopped(); i += Shard[1] {
				if e.TimeUp() {
					st.Exhaustive = false
					st.Note = "stopped by the internal deadline"
					break
				}
				sc := get(i)
				if sc == nil {
					continue
				}
				explore(e, w, part, name, i, sc, &st)
				if i%(8*Shard[1]) < Shard[1] || i < 2*Shard[1] {
					e.Sample(map[string]any{"part": name, "scenario": sc.Name, "preemption bound": sc.Bound, "history": last})
				}
			}
			w.Idle()
			st.WallS = time.Since(t0).Seconds()
			e.Res.Parts = append(e.Res.Parts, st)
		},
		Reexec: func(f *core.Failure) error {
			sc := get(int(f.Case))
			if w := newRunner(sc).exec(decode(f.Path)); w != "" {
				return fmt.Errorf("%s: %s", sc.Name, w)
			}
			return nil
		},
		Steps: func(f *core.Failure) []string {
			sc := get(int(f.Case))
			s := []string{"scenario: " + sc.Name}
			vsched.Tracing = true
			r := newRunner(sc)
			w := r.exec(decode(f.Path))
			vsched.Tracing = false
			for _, ev := range vsched.Events {
				what := "preempted"
				if ev.Free {
					what = "blocked or ended"
				}
				s = append(s, fmt.Sprintf("point %d: thread %d %s at %s, thread %d goes on", ev.Point, ev.From, what, ev.Where, ev.To))
			}
			return append(s, w)
		},
	}
}

var last string

func encode(d []vsched.Deviation) []uint32 {
	var p []uint32
	for _, x := range d {
		p = append(p, uint32(x.Point)<<4|uint32(x.Thread))
	}
	return p
}
func decode(p []uint32) []vsched.Deviation {
	var d []vsched.Deviation
	for _, x := range p {
		d = append(d, vsched.Deviation{Point: int32(x >> 4), Thread: int8(x & 15)})
	}
	return d
}

// Coarse: the code has goroutines or channels of its own and is not instrumented;
// threads change only between calls.
var Coarse = os.Getenv("VERIF_COARSE") != ""

func explore(e *core.Engine, w *core.Worker, part int, name string, idx int, sc *Scenario, st *core.PartStats) {
	r := newRunner(sc)
	bound := sc.Bound
	if Coarse {
		bound = 0
	}
	stack := []todo{{nil, bound}}
	var path []uint32
	runs := 0
	for len(stack) > 0 {
		t := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		runs++
		if runs&63 == 0 && e.TimeUp() {
			st.Exhaustive = false
			st.Note = "stopped by the internal deadline"
			return
		}
		path = path[:0]
		for _, x := range t.d {
			path = append(path, uint32(x.Point)<<4|uint32(x.Thread))
		}
		w.Mark(part, 4, 0, int64(idx), path)
		wrong := r.exec(t.d)
		st.States++
		st.Transitions += int64(vsched.Points())
		if wrong != "" {
			e.Fail(&core.Failure{Part: name, Kind: "schedule", Case: int64(idx), Path: encode(t.d), What: sc.Name + ": " + wrong})
			return
		}
		from := int32(0)
		if k := len(t.d); k > 0 {
			from = t.d[k-1].Point + 1
		}
		for p := from; p < int32(vsched.Points()) && p < vsched.MaxPoints; p++ {
			m, free, cur := vsched.Mask[p], vsched.Free[p], vsched.Cur[p]
			cost := 1
			def := cur
			if free {
				cost, def = 0, vsched.Default(m)
			}
			if g := vsched.Gave[p]; g >= 0 {
				cost, def = 1, g
			}
			if t.budget < cost || m&^(1<<uint(def)) == 0 {
				continue
			}
			for x := int8(0); x < vsched.MaxThreads; x++ {
				if x != def && m>>uint(x)&1 == 1 {
					nd := make([]vsched.Deviation, len(t.d)+1)
					copy(nd, t.d)
					nd[len(t.d)] = vsched.Deviation{Point: p, Thread: x}
					stack = append(stack, todo{nd, t.budget - cost})
				}
			}
		}
		if runs == 1 || len(stack) == 0 {
			// conformance: the same schedule again leads to the same history
			a := r.history("")
			if w := r.exec(t.d); w != "" {
				e.Fail(&core.Failure{Part: name, Kind: "schedule", Case: int64(idx), Path: encode(t.d), What: sc.Name + ": " + w})
				return
			}
			if r.history("") != a {
				st.Note = "some schedules lead to different histories when repeated"
				continue
			}
			st.Traces++
			last = a
		}
	}
}
