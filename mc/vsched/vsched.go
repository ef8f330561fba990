// Package vsched runs a few goroutines one at a time and decides at every
// statement of the code under test which of them goes on. All hand-overs are
// hidden from the race detector, so that only the synchronisation of the code
// under test orders its accesses.
package vsched

import (
	"runtime"
	"time"
	"unsafe"
)

// MaxThreads is the most threads an execution can have.
const MaxThreads = 4

// MaxPoints is the most scheduling points an execution can have.
const MaxPoints = 1 << 16

// what a thread waits for
const (
	wNone = iota
	wLock // exclusive lock, inner part
	wDrain
	wShared
	wCond
)

// Lock is the state of a readers-writer lock with the semantics of sync.RWMutex:
// a writer that waits keeps new readers out.
type Lock struct {
	writer  int8 // 1+thread that holds or has announced the exclusive lock
	readers int16
	granted [MaxThreads]bool // readers admitted by the writer that left
	waiting [MaxThreads]bool // readers that came while a writer was announced
	RS, WS  uint64           // addresses for the race detector
	epoch   int64
}

// epoch tells apart what happened before the last call of Fresh.
var epoch int64

// Fresh forgets who holds which lock: the threads of an execution that did not end are gone.
//
//go:norace
func Fresh() { epoch++ }

//go:norace
func (l *Lock) look() {
	if l.epoch != epoch {
		l.epoch, l.writer, l.readers = epoch, 0, 0
		l.granted, l.waiting = [MaxThreads]bool{}, [MaxThreads]bool{}
	}
}

type thread struct {
	resume chan struct{}
	fn     func()
	wait   int8
	lock   *Lock
	signal *bool
	done   bool
}

// Deviation is a choice different from the default one.
type Deviation struct {
	Point  int32
	Thread int8
}

// Outcome says how an execution ended.
type Outcome int8

// outcomes
const (
	Ended Outcome = iota
	Deadlock
	TooLong
	Misuse // unlocking what is not locked
)

var (
	threads [MaxThreads]thread
	n       int
	active  bool
	cur     int8
	point   int32
	since   int32 // point at which the running thread went on
	devs    [32]Deviation
	ndev    int
	nextDev int
	nextPt  int32
	mask    uint8 // threads able to run
	outcome Outcome
	misuse  string
	mainCh  = make(chan struct{}, 1)
	joinAt  uint64
	startAt uint64
	clock   int64
	started bool

	// Trace of the execution: for every point the thread that was running and the threads able to run.
	Cur  [MaxPoints]int8
	Mask [MaxPoints]uint8
	// Gave is the thread that goes on at the point because the running one gives way, or -1.
	Gave [MaxPoints]int8
	// Free says that the thread running could not go on, so that every choice is free.
	Free [MaxPoints]bool

	// Where, if Tracing, receives the source positions of switches.
	Tracing bool
	Events  []Event
)

// Event is a switch between threads.
type Event struct {
	Point    int32
	From, To int8
	Where    string
	Free     bool
}

// Points is the number of points of the last execution.
//
//go:norace
func Points() int { return int(point) }

// Misused tells about a misuse of a lock.
//
//go:norace
func Misused() string { return misuse }

//go:norace
func startThreads() {
	if started {
		return
	}
	started = true
	for i := range threads {
		threads[i].resume = make(chan struct{}, 1)
		go loop(int8(i))
	}
}

//go:norace
func loop(i int8) {
	t := &threads[i]
	ch := t.resume
	for {
		raceDisable()
		<-ch
		raceEnable()
		Acquire(unsafe.Pointer(&startAt))
		t.fn()
		ReleaseMerge(unsafe.Pointer(&joinAt))
		finish(i)
	}
}

//go:norace
func finish(i int8) {
	threads[i].done = true
	refresh()
	if mask == 0 {
		for k := 0; k < n; k++ {
			if !threads[k].done {
				end(Deadlock)
				return
			}
		}
		end(Ended)
		return
	}
	to := choose(true)
	if Tracing {
		Events = append(Events, Event{point - 1, i, to, "end of the thread", true})
	}
	cur, since = to, point
	raceDisable()
	threads[to].resume <- struct{}{}
	raceEnable()
}

//go:norace
func end(o Outcome) {
	outcome = o
	active = false
	raceDisable()
	mainCh <- struct{}{}
	raceEnable()
}

// Run executes the functions as threads under a schedule.
//
//go:norace
func Run(fns []func(), d []Deviation) Outcome {
	if outcome != Ended {
		started = false // the threads of the last execution are stuck
	}
	startThreads()
	n = len(fns)
	for i := range threads {
		t := &threads[i]
		t.wait, t.lock, t.signal = wNone, nil, nil
		t.done = i >= n
		if i < n {
			t.fn = fns[i]
		}
	}
	ndev, nextDev = 0, 0
	for i := range d {
		devs[i] = d[i]
		ndev++
	}
	nextPt = -1
	if ndev > 0 {
		nextPt = devs[0].Point
	}
	point, since, clock, outcome, misuse, idle = 0, 0, 0, Ended, "", 0
	if Tracing {
		Events = Events[:0]
	}
	refresh()
	cur = -1
	active = true
	Release(unsafe.Pointer(&startAt))
	to := choose(true)
	cur = to
	raceDisable()
	threads[to].resume <- struct{}{}
	<-mainCh
	raceEnable()
	Acquire(unsafe.Pointer(&joinAt))
	return outcome
}

// refresh computes which threads are able to run.
//
//go:norace
func refresh() {
	mask = 0
	for i := 0; i < n; i++ {
		t := &threads[i]
		if t.done {
			continue
		}
		ok := true
		switch t.wait {
		case wLock:
			ok = t.lock.writer == 0
		case wDrain:
			ok = t.lock.readers == 0
		case wShared:
			ok = t.lock.granted[i] || t.lock.writer == 0
		case wCond:
			ok = *t.signal
		}
		if ok {
			mask |= 1 << i
		}
	}
}

// choose takes the decision at a point. free: the running thread cannot go on.
//
//go:norace
func choose(free bool) int8 {
	p := point
	if p < MaxPoints {
		Cur[p], Mask[p], Free[p], Gave[p] = cur, mask, free, -1
	}
	point++
	if p == nextPt {
		to := devs[nextDev].Thread
		nextDev++
		nextPt = -1
		if nextDev < ndev {
			nextPt = devs[nextDev].Point
		}
		if mask>>uint(to)&1 == 1 {
			return to
		}
	}
	if !free {
		return cur
	}
	return Default(mask)
}

// Default is the thread that runs if the running one cannot go on.
//
//go:norace
func Default(mask uint8) int8 {
	for i := int8(0); i < MaxThreads; i++ {
		if mask>>uint(i)&1 == 1 {
			return i
		}
	}
	return 0
}

// Me is the thread that is running, or -1.
//
//go:norace
func Me() int {
	if !active {
		return -1
	}
	return int(cur)
}

var (
	switches int64
	released [MaxThreads]int64 // number of switches when the thread last released a lock; -1: not in this call
)

// Call starts a call of the running thread.
//
//go:norace
func Call() {
	if active {
		released[cur] = -1
	}
}

// Settled says that no other thread has run since the running one released a lock in this call.
//
//go:norace
func Settled() bool {
	return !active || released[cur] < 0 || released[cur] == switches
}

//go:norace
func releasing() {
	if active {
		released[cur] = switches
	}
}

// Hold lets the running thread go on without scheduling points until Go.
//
//go:norace
func Hold() bool {
	was := active
	active = false
	return was
}

// Go ends Hold.
//
//go:norace
func Go(was bool) { active = was }

// SyncOnly leaves only those scheduling points that are next to synchronisation.
var SyncOnly bool

// idle counts the points left out since the last one that was not.
var idle int32

// P is a scheduling point.
//
//go:norace
func P() {
	if SyncOnly && active {
		if idle++; idle <= Patience {
			return
		}
		// it may be waiting for the others
		if mask&^(1<<uint(cur)) != 0 {
			idle = 0
			Yield()
			return
		}
		if idle > MaxPoints {
			tooLong()
		}
		return
	}
	S()
}

// S is a scheduling point next to synchronisation.
//
//go:norace
func S() {
	if !active {
		return
	}
	idle = 0
	p := point
	if p != nextPt {
		if p < MaxPoints {
			if p-since > Patience && mask&^(1<<uint(cur)) != 0 {
				Yield()
				return
			}
			Cur[p], Mask[p], Free[p], Gave[p] = cur, mask, false, -1
			point = p + 1
			return
		}
		tooLong()
		return
	}
	to := choose(false)
	if to != cur {
		transfer(to, false)
	}
}

// Patience is for how many points a thread may keep the others waiting: it may be
// waiting for them itself, in a loop.
const Patience = 1000

// Yield lets the next of the other threads go on, if one is able to.
//
//go:norace
func Yield() {
	if !active {
		runtime.Gosched()
		return
	}
	p := point
	if p >= MaxPoints {
		tooLong()
		return
	}
	to := cur
	for k := int8(1); k < MaxThreads; k++ {
		if x := (cur + k) % MaxThreads; mask>>uint(x)&1 == 1 {
			to = x
			break
		}
	}
	Cur[p], Mask[p], Free[p], Gave[p] = cur, mask, false, to
	point = p + 1
	if p == nextPt {
		to = devs[nextDev].Thread
		nextDev++
		nextPt = -1
		if nextDev < ndev {
			nextPt = devs[nextDev].Point
		}
		if mask>>uint(to)&1 == 0 {
			to = cur
		}
	}
	since = p
	if to != cur {
		transfer(to, true)
	}
}

// Sleep is Yield.
//
//go:norace
func Sleep(time.Duration) { Yield() }

//go:norace
func tooLong() {
	ch := threads[cur].resume
	end(TooLong)
	raceDisable()
	<-ch // for ever
	raceEnable()
}

// transfer lets another thread run and returns when the caller's turn comes again.
//
//go:norace
func transfer(to int8, free bool) {
	me := cur
	if Tracing {
		Events = append(Events, Event{point - 1, me, to, where(), free})
	}
	cur, since = to, point
	ch := threads[me].resume
	switches++
	raceDisable()
	threads[to].resume <- struct{}{}
	<-ch
	raceEnable()
}

func where() string {
	var pcs [16]uintptr
	k := runtime.Callers(3, pcs[:])
	fr := runtime.CallersFrames(pcs[:k])
	for {
		f, more := fr.Next()
		if !internal(f.Function) {
			return f.Function + " " + base(f.File) + ":" + itoa(f.Line)
		}
		if !more {
			return ""
		}
	}
}

func internal(s string) bool {
	return len(s) >= 14 && (s[:14] == "verifmc/vsched" || s[:13] == "verifmc/vsync")
}
func base(s string) string {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == '/' {
			return s[i+1:]
		}
	}
	return s
}
func itoa(x int) string {
	if x == 0 {
		return "0"
	}
	var b [20]byte
	i := len(b)
	for ; x > 0; x /= 10 {
		i--
		b[i] = byte('0' + x%10)
	}
	return string(b[i:])
}

// wait blocks the running thread until its condition holds.
//
//go:norace
func wait(kind int8, l *Lock, sig *bool) {
	t := &threads[cur]
	t.wait, t.lock, t.signal = kind, l, sig
	refresh()
	me := cur
	if mask == 0 {
		ch := t.resume
		end(Deadlock)
		raceDisable()
		<-ch // for ever
		raceEnable()
	}
	to := choose(true)
	if to != me {
		transfer(to, true)
	}
	t.wait, t.lock, t.signal = wNone, nil, nil
	refresh()
}

// Stuck is the panic value for a lock that can never be had outside of an execution.
const Stuck = "deadlock: a lock that is held and will never be released"

// Lock takes the lock exclusively.
//
//go:norace
func (l *Lock) Lock() {
	S()
	l.look()
	if l.writer != 0 {
		if !active {
			panic(Stuck)
		}
		wait(wLock, l, nil)
	}
	l.writer = cur + 1
	if !active {
		l.writer = MaxThreads + 1
	}
	refresh()
	if l.readers != 0 {
		if !active {
			panic(Stuck)
		}
		wait(wDrain, l, nil)
	}
	Acquire(unsafe.Pointer(&l.RS))
	Acquire(unsafe.Pointer(&l.WS))
}

// TryLock takes the lock exclusively if it is free.
//
//go:norace
func (l *Lock) TryLock() bool {
	S()
	l.look()
	if l.writer != 0 || l.readers != 0 {
		return false
	}
	l.writer = cur + 1
	if !active {
		l.writer = MaxThreads + 1
	}
	refresh()
	Acquire(unsafe.Pointer(&l.RS))
	Acquire(unsafe.Pointer(&l.WS))
	return true
}

// Unlock releases the exclusive lock.
//
//go:norace
func (l *Lock) Unlock() {
	S()
	l.look()
	if l.writer == 0 {
		Fatal("unlock of an unlocked lock")
	}
	Release(unsafe.Pointer(&l.RS))
	releasing()
	l.writer = 0
	for i := range l.waiting {
		if l.waiting[i] {
			l.waiting[i] = false
			l.granted[i] = true
			l.readers++
		}
	}
	refresh()
}

// RLock takes the lock shared.
//
//go:norace
func (l *Lock) RLock() {
	S()
	l.look()
	if l.writer != 0 {
		if !active {
			panic(Stuck)
		}
		l.waiting[cur] = true
		wait(wShared, l, nil)
		l.granted[cur] = false
	} else {
		l.readers++
	}
	refresh()
	Acquire(unsafe.Pointer(&l.RS))
}

// TryRLock takes the lock shared if no writer has or wants it.
//
//go:norace
func (l *Lock) TryRLock() bool {
	S()
	l.look()
	if l.writer != 0 {
		return false
	}
	l.readers++
	refresh()
	Acquire(unsafe.Pointer(&l.RS))
	return true
}

// RUnlock releases a shared lock.
//
//go:norace
func (l *Lock) RUnlock() {
	S()
	l.look()
	if l.readers == 0 {
		Fatal("release of a shared lock that nobody holds")
	}
	ReleaseMerge(unsafe.Pointer(&l.WS))
	releasing()
	l.readers--
	refresh()
}

// Await blocks until *sig is set.
//
//go:norace
func Await(sig *bool) {
	S()
	if *sig {
		return
	}
	if !active {
		panic(Stuck)
	}
	wait(wCond, nil, sig)
}

// Wake makes the scheduler look again at what the threads wait for.
//
//go:norace
func Wake() { refresh() }

// Fatal ends the execution: the runtime would end the process.
//
//go:norace
func Fatal(what string) {
	if !active {
		panic("fatal error: " + what)
	}
	misuse = what
	ch := threads[cur].resume
	end(Misuse)
	raceDisable()
	<-ch // for ever
	raceEnable()
}

// Now is a logical clock that advances with every call.
//
//go:norace
func Now() int64 { clock++; return clock }

// Active says whether an execution is under way.
//
//go:norace
func Active() bool { return active }
