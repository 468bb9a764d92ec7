// Package rt is the run-time the instrumented library is linked against: lock, atomic and clock
// operations of the code under test become scheduling points of a cooperative, deterministic
// scheduler. One thread runs at a time; which one continues at each point is decided by Choose.
//
// The hand-off between threads is invisible to the race detector (runtime.RaceDisable around the
// channel operations, go:norace on the bookkeeping), and the lock shims carry exactly the
// happens-before edges of the real ones. So, in a -race build, the detector judges each explored
// schedule by the synchronisation of the code under test alone.
package rt

import "fmt"

// Deadlock is the panic value of a lock operation that can never proceed (sequential mode).
type Deadlock struct{ What string }

func (d Deadlock) Error() string { return "deadlock: " + d.What }

type abortT struct{}

const (
	opStart = iota
	opLockTry
	opLockWait
	opRLock
	opOther
)

type thread struct {
	id   int
	ch   chan struct{}
	done bool
	op   int
	m    *core
	cond func() bool
	// quiet: goes on without a scheduling point as long as it can
	quiet bool
	lib   bool // started by the code under test
	idle  bool // waits on a channel or condition variable
}

// Quiet runs f without scheduling points as far as f does not block: for the harness to look at
// objects no other thread has (a clone just taken). Races are still seen.
func Quiet(f func()) {
	quiet(true)
	defer quiet(false)
	f()
}

//go:norace
func quiet(on bool) {
	if ex != nil && !ex.abort {
		ex.cur.quiet = on
	}
}

// Point is one scheduling decision.
type Point struct {
	N        int  // number of enabled threads
	CurFirst bool // alternative 0 continues the running thread and it was not at an operation boundary
	Chosen   int
	Tid      int
}

// Exec is one controlled execution.
type Exec struct {
	threads  []*thread
	cur      *thread
	main     chan struct{}
	end      chan struct{} // closed when all is over: the goroutines stay alive so that the race detector keeps their history
	prefix   []int
	Points   []Point
	Steps    int
	Clock    int // event counter for histories
	abort    bool
	fresh    bool
	Deadlock bool
	Livelock bool
	Unsure   bool // stuck in a way that cannot be judged
	Killed   bool // a goroutine of the code under test was ended while it waited
	Diverged bool
	join     byte
	enabled  []*thread
}

var ex *Exec

// MaxSteps bounds one execution.
var MaxSteps = 20000

// Active tells whether a controlled execution is going on.
//
//go:norace
func Active() bool { return ex != nil && !ex.abort }

// Run executes the bodies under the schedule prefix (choice indexes), then taking choice 0.
//
//go:norace
func Run(prefix []int, bodies []func()) *Exec {
	e := &Exec{main: make(chan struct{}), end: make(chan struct{}), prefix: prefix}
	for i := range bodies {
		e.threads = append(e.threads, &thread{id: i, ch: make(chan struct{}), op: opStart})
	}
	e.Points = make([]Point, 0, 64)
	e.enabled = make([]*thread, 0, len(bodies))
	seqHeld, seqLater = 0, nil
	ex = e
	for i, b := range bodies {
		spawn(e, e.threads[i], b)
	}
	nx := e.pick(true)
	raceOff()
	nx.ch <- struct{}{}
	<-e.main
	raceOn()
	if !allDone(e) {
		// no thread can continue: unwind the blocked ones
		chans = nil
		e.abort = true
		for _, t := range e.threads {
			if !t.done {
				e.Killed = e.Killed || t.lib
				e.cur = t
				raceOff()
				t.ch <- struct{}{}
				<-e.main
				raceOn()
			}
		}
	}
	raceOff()
	close(e.end)
	raceOn()
	acquire(&e.join)
	ex = nil
	return e
}

//go:norace
func allDone(e *Exec) bool {
	for _, t := range e.threads {
		if !t.done {
			return false
		}
	}
	return true
}

//go:norace
func spawn(e *Exec, t *thread, body func()) {
	go func() {
		waitTurn(t)
		if !e.abort {
			runBody(body)
		}
		finish(e, t)
	}()
}

func runBody(body func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abortT); !ok {
				panic(r)
			}
		}
	}()
	body()
}

//go:norace
func waitTurn(t *thread) {
	raceOff()
	<-t.ch
	raceOn()
}

//go:norace
func finish(e *Exec, t *thread) {
	t.done = true
	releaseMerge(&e.join)
	var nx *thread
	if !e.abort {
		nx = e.pick(true)
	}
	raceOff()
	if nx != nil {
		nx.ch <- struct{}{}
	} else {
		e.main <- struct{}{}
	}
	<-e.end
	raceOn()
}

//go:norace
func (t *thread) can() bool {
	switch t.op {
	case opLockWait:
		return !t.m.writer && t.m.readers == 0
	case opRLock:
		return !t.m.writer && t.m.waitW == 0
	case opOther:
		return t.cond == nil || t.cond()
	}
	return true
}

// pick chooses the next thread to run, or nil (deadlock, or all done). boundary: leaving the
// running thread here is not a preemption.
//
//go:norace
func (e *Exec) pick(boundary bool) *thread {
	e.Steps++
	if e.Steps > MaxSteps {
		e.Livelock = true
		e.abort = true
		return nil
	}
	en := e.enabled[:0]
	curFirst := false
	if e.cur != nil && !e.cur.done && e.cur.can() {
		en = append(en, e.cur)
		curFirst = !boundary
	}
	for _, t := range e.threads {
		if t != e.cur && !t.done && t.can() {
			en = append(en, t)
		}
	}
	e.enabled = en
	if len(en) == 0 {
		// goroutines of the code under test may stay waiting for work
		lib := len(parked) > 0
		for _, t := range e.threads {
			if !t.done && !(t.lib && t.idle) {
				e.Deadlock = true
			}
			lib = lib || t.lib
		}
		for _, t := range e.threads {
			// an answer may depend on a goroutine from before this execution
			if !t.done && t.idle && !t.lib && lib {
				e.Unsure = true
			}
		}
		return nil
	}
	c := 0
	if len(en) > 1 {
		i := len(e.Points)
		if i < len(e.prefix) {
			c = e.prefix[i]
			if c >= len(en) {
				e.Diverged = true
				c = 0
			}
		}
		e.Points = append(e.Points, Point{N: len(en), CurFirst: curFirst, Chosen: c, Tid: en[c].id})
	}
	e.cur = en[c]
	e.fresh = false
	return e.cur
}

// yield lets the scheduler decide who goes on; returns when it is t's turn.
//
//go:norace
func (e *Exec) yield(boundary bool) {
	t := e.cur
	if t.quiet && t.can() {
		e.Steps++
		if e.Steps <= MaxSteps {
			return
		}
	}
	nx := e.pick(boundary)
	if nx == t {
		return
	}
	raceOff()
	if nx != nil {
		nx.ch <- struct{}{}
	} else {
		e.main <- struct{}{}
	}
	<-t.ch
	raceOn()
	if e.abort {
		panic(abortT{})
	}
}

// OpBoundary is called by the harness between two operations of a thread.
//
//go:norace
func OpBoundary() {
	e := ex
	if e == nil || e.abort {
		return
	}
	e.cur.op = opOther
	e.cur.cond = nil
	e.yield(true)
	e.fresh = true
}

// FirstOp marks the first operation of a thread (the start itself was the scheduling point).
//
//go:norace
func FirstOp() {
	if ex != nil {
		ex.fresh = true
	}
}

// Tick returns a fresh event number (for call/return time stamps).
//
//go:norace
func Tick() int {
	if ex == nil {
		return 0
	}
	ex.Clock++
	return ex.Clock
}

// Step is a plain scheduling point (atomics, clock reads, user callbacks).
//
//go:norace
func Step() {
	e := ex
	if e == nil || e.abort {
		return
	}
	if e.fresh {
		e.fresh = false
		return
	}
	e.cur.op = opOther
	e.cur.cond = nil
	e.yield(false)
}

func (e *Exec) String() string {
	s := make([]int, len(e.Points))
	for i, p := range e.Points {
		s[i] = p.Chosen
	}
	return fmt.Sprint(s)
}

// Aborted tells whether a recovered value is the unwinding of a blocked thread.
func Aborted(r interface{}) bool { _, ok := r.(abortT); return ok }
