package conc

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"time"

	"verifmc/core"
	"verifmc/vsched"
)

// First use in a process. Tables that a package fills when they are first needed
// are touched by the first calls of a process and by no others, and a scenario
// that runs after a thousand others does not see them being filled. Here every
// scenario has a process of its own in which nothing of the library has run: two
// threads make their containers, work on them and look at them; or, where they
// share one, it is made and they work on it.

var firsts = map[string]func(i int) *Scenario{}

// FirstArgs are the flags that make this program build the same check.
var FirstArgs []string

// FirstOnly: Build makes the parts of first use only.
var FirstOnly bool

const firstWrong = "FIRST-USE-WRONG "

func firstUse(name string, n int, get func(i int) *Scenario) *core.Custom {
	firsts[name] = get
	var tick func()
	run := func(i int) string {
		for try := 0; ; try++ {
			ctx, stop := context.WithTimeout(context.Background(), 25*time.Second)
			var b bytes.Buffer
			cmd := exec.CommandContext(ctx, os.Args[0], append(FirstArgs, "-first", fmt.Sprintf("%d/%s", i, name))...)
			cmd.Env = append(os.Environ(), "GORACE="+os.Getenv("GORACE")+" atexit_sleep_ms=0")
			cmd.Stdout, cmd.Stderr = &b, &b
			err := cmd.Run()
			late := ctx.Err() != nil
			if tick != nil {
				tick()
			}
			stop()
			out := b.String()
			if k := strings.Index(out, firstWrong); k >= 0 {
				return strings.TrimSpace(out[k+len(firstWrong):])
			}
			if err == nil {
				return ""
			}
			if try < 2 {
				continue // the process did not come to a verdict
			}
			if late {
				return "does not end"
			}
			if len(out) > 1500 {
				out = out[:1500]
			}
			return err.Error() + ": " + out
		}
	}
	return &core.Custom{Name: name,
		Run: func(e *core.Engine, part int) {
			t0 := time.Now()
			st := core.PartStats{Name: name, Kind: "schedules, a process each", Exhaustive: true}
			w := e.Workers[0]
			tick = w.Tick
			for i := Shard[0]; i < n && !e.Stopped(); i += Shard[1] {
				if e.TimeUp() {
					st.Exhaustive, st.Note = false, "stopped by the internal deadline"
					break
				}
				sc := get(i)
				w.Mark(part, 4, 0, int64(i), nil)
				st.States++
				st.Transitions++
				if wrong := run(i); wrong != "" {
					e.Fail(&core.Failure{Part: name, Kind: "schedule", Case: int64(i), What: sc.Name + ": " + wrong})
					break
				}
				if i%(64*Shard[1]) < Shard[1] {
					e.Sample(map[string]any{"part": name, "scenario": sc.Name})
				}
			}
			w.Idle()
			st.WallS = time.Since(t0).Seconds()
			e.Res.Parts = append(e.Res.Parts, st)
		},
		Reexec: func(f *core.Failure) error {
			if w := run(int(f.Case)); w != "" {
				return fmt.Errorf("%s: %s", get(int(f.Case)).Name, w)
			}
			return nil
		},
		Steps: func(f *core.Failure) []string {
			return []string{"in a new process: " + get(int(f.Case)).Name}
		},
	}
}

// Child runs one scenario of first use in this process.
func Child(which string) int {
	is, name, _ := strings.Cut(which, "/")
	i := 0
	fmt.Sscan(is, &i)
	get := firsts[name]
	if get == nil {
		fmt.Println("no such part")
		return 3
	}
	sc := get(i)
	unsafe = sc.Kind.Plain
	r := newRunner(sc)
	n := len(sc.Threads)
	r.sut = make([]*SUT, n)
	finals := make([]string, n)
	neighbour = nil
	vsched.Fresh()
	for t := range sc.Threads {
		cs := r.calls[t]
		for i := range cs {
			cs[i] = call{op: &sc.Threads[t][i]}
		}
		work := r.fns[t]
		r.fns[t] = func() {
			defer func() {
				if v := recover(); v != nil {
					finals[t] = "panic: " + fmt.Sprint(v)
				}
			}()
			if sc.Sep {
				r.sut[t] = sc.Kind.Mk(sc.Init)
			}
			work()
			if !sc.Sep {
				return
			}
			for i := range cs {
				if c := &cs[i]; c.late != nil {
					c.out = c.late()
				}
			}
			finals[t] = r.sut[t].Final()
		}
	}
	if !sc.Sep {
		r.sut[0] = sc.Kind.Mk(sc.Init)
	}
	races := vsched.RaceErrors()
	out := vsched.Run(r.fns, nil)
	wrong := ""
	switch {
	case out == vsched.Deadlock:
		wrong = "deadlock: " + r.where()
	case out == vsched.TooLong:
		wrong = "a call does not end: " + r.where()
	case out == vsched.Misuse:
		wrong = "fatal error, " + vsched.Misused() + ": " + r.where()
	case vsched.RaceErrors() != races:
		wrong = "data race in the first calls of a process"
	case !sc.Sep:
		for t := range sc.Threads {
			for i := range r.calls[t] {
				if c := &r.calls[t][i]; c.late != nil {
					c.out = c.late()
				}
			}
		}
		wrong = r.linear(r.sut[0].Final() + ";")
	default:
		for t := range sc.Threads {
			if wrong == "" {
				wrong = r.alone(t, finals[t])
			}
		}
	}
	if wrong != "" {
		fmt.Println(firstWrong + wrong)
		return 1
	}
	return 0
}

// first: two threads make the first calls of a process, each on a container of
// its own, or all on one; the same call, or (every) any two.
func first(name string, ks []*Kind, inits []int, sep, every bool) any {
	s := &scenarios{name: name}
	for _, k := range ks {
		for _, init := range inits {
			if init >= k.Inits {
				continue
			}
			for i := range k.Ops {
				for j := i; j < len(k.Ops) && (every || j == i); j++ {
					s.add(k, init, 0, sep, false, k.Ops[i:i+1], k.Ops[j:j+1])
				}
			}
		}
	}
	return firstUse(name, len(s.all), func(i int) *Scenario { return &s.all[i] })
}
