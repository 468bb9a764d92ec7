package rt

import (
	"sync"
	"unsafe"
)

// Channels of the code under test stay real channels; operations that would block wait in the
// scheduler instead. What is sent on a channel without a buffer waits here until it is taken.
// No maps and no closures in what the threads share: the race detector would see them.

type pending struct {
	v     interface{}
	taken bool
	s, r  byte
}

//go:norace
func (x *pending) isTaken() bool { return x.taken }

type chanState struct {
	p      unsafe.Pointer
	q      []*pending
	recv   int // receivers waiting
	closed bool
}

var chans []*chanState

// state finds what is known about a channel.
//
//go:norace
func state(p unsafe.Pointer, create bool) *chanState {
	for i := len(chans) - 1; i >= 0; i-- {
		if chans[i].p == p {
			return chans[i]
		}
	}
	if !create {
		return nil
	}
	if len(chans) >= 100 {
		j := 0
		for _, s := range chans {
			if len(s.q) > 0 || s.recv > 0 {
				chans[j] = s
				j++
			}
		}
		chans = chans[:j]
	}
	s := &chanState{p: p}
	chans = append(chans, s)
	return s
}

// wait blocks the running thread until cond holds; a scheduling point.
//
//go:norace
func wait(what string, cond func() bool) {
	e := ex
	if e == nil {
		if !cond() && !seqWait(cond) {
			panic(Deadlock{what})
		}
		return
	}
	if e.abort {
		panic(abortT{})
	}
	t := e.cur
	e.fresh = false
	t.op = opOther
	t.cond = cond
	t.idle = true
	e.yield(false)
	t.idle = false
	t.cond = nil
}

// ---- receiving

type recvOp[T any] struct {
	ch <-chan T
	p  unsafe.Pointer
	v  T
	ok bool
}

//go:norace
func newRecv[T any](ch <-chan T) *recvOp[T] {
	return &recvOp[T]{ch: ch, p: *(*unsafe.Pointer)(unsafe.Pointer(&ch))}
}

//go:norace
func (c *recvOp[T]) ready() bool {
	if c.ch == nil {
		return false
	}
	if len(c.ch) > 0 {
		return true
	}
	if s := state(c.p, false); s != nil && (len(s.q) > 0 || s.closed) {
		return true
	}
	raceOff()
	got, ok, v := probe(c.ch)
	raceOn()
	if got && ok { // from outside the code under test
		s := state(c.p, true)
		s.q = append(s.q, &pending{v: v})
	}
	return got
}

//go:norace
func probe[T any](ch <-chan T) (got, ok bool, v T) {
	select {
	case v, ok = <-ch:
		return true, ok, v
	default:
	}
	return
}

//go:norace
func (c *recvOp[T]) do(*Sel) {
	if s := state(c.p, false); s != nil && len(s.q) > 0 && len(c.ch) == 0 {
		x := s.q[0]
		s.q = s.q[1:]
		acquire(&x.s)
		releaseMerge(&x.r)
		x.taken = true
		c.v, c.ok = x.v.(T)
		c.ok = true
		return
	}
	c.v, c.ok = <-c.ch
}

//go:norace
func (c *recvOp[T]) begin(n int) {
	if c.ch != nil && cap(c.ch) == 0 {
		state(c.p, true).recv += n
	}
}

// Recv2 stands for v, ok := <-ch.
//
//go:norace
func Recv2[T any](ch <-chan T) (T, bool) {
	c := newRecv(ch)
	c.begin(1)
	wait("receive", c.ready)
	c.begin(-1)
	c.do(nil)
	pump()
	return c.v, c.ok
}

// Recv stands for <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// ---- sending

type sendOp[T any] struct {
	ch chan<- T
	p  unsafe.Pointer
	v  T
}

//go:norace
func newSend[T any](ch chan<- T) *sendOp[T] {
	return &sendOp[T]{ch: ch, p: *(*unsafe.Pointer)(unsafe.Pointer(&ch))}
}

//go:norace
func (c *sendOp[T]) isClosed() bool {
	s := state(c.p, false)
	return s != nil && s.closed
}

// ready: there is room, or one who waits.
//
//go:norace
func (c *sendOp[T]) ready() bool {
	if c.ch == nil {
		return false
	}
	if len(c.ch) < cap(c.ch) || c.isClosed() {
		return true
	}
	if cap(c.ch) > 0 {
		return false
	}
	s := state(c.p, false)
	return s != nil && s.recv > len(s.q)
}

//go:norace
func (c *sendOp[T]) do(*Sel) {
	if cap(c.ch) > 0 || c.isClosed() {
		c.ch <- c.v
		return
	}
	c.put()
}

//go:norace
func (c *sendOp[T]) put() *pending {
	x := &pending{v: c.v}
	releaseMerge(&x.s)
	if c.ch != nil {
		s := state(c.p, true)
		s.q = append(s.q, x)
	}
	return x
}

//go:norace
func (c *sendOp[T]) begin(int) {}

//go:norace
func (c *sendOp[T]) send(v T) {
	c.v = v
	if cap(c.ch) > 0 {
		wait("send", c.ready)
		c.do(nil)
		pump()
		return
	}
	if c.isClosed() {
		c.ch <- v // panics
	}
	x := c.put()
	pump()
	wait("send", x.isTaken)
	acquire(&x.r)
}

//go:norace
func (c *sendOp[T]) with(v T) Case {
	c.v = v
	return c
}

// Send stands for ch <- v.
func Send[T any](ch chan<- T) func(T) { return newSend(ch).send }

// Close stands for close(ch).
//
//go:norace
func Close[T any](ch chan<- T) {
	Step()
	close(ch)
	state(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), true).closed = true
	pump()
}

// ---- select

// Case is one case of a select statement, Sel what came out.
type Case interface {
	ready() bool
	do(*Sel)
	begin(int)
}

// Sel is the outcome of a select statement.
type Sel struct {
	I int
	c Case
}

// CaseRecv is a case that receives.
func CaseRecv[T any](ch <-chan T) Case { return newRecv(ch) }

// CaseSend is a case that sends.
func CaseSend[T any](ch chan<- T) func(T) Case { return newSend(ch).with }

type noCase struct{}

func (noCase) ready() bool { return false }
func (noCase) do(*Sel)     {}
func (noCase) begin(int)   {}

// CaseNone stands in the place of default.
func CaseNone() Case { return noCase{} }

type selOp []Case

//go:norace
func (s selOp) ready() bool {
	for _, c := range s {
		if c.ready() {
			return true
		}
	}
	return false
}

// Select stands for a select statement; of several cases that can go on the first is taken.
//
//go:norace
func Select(def bool, cases ...Case) *Sel {
	r := &Sel{I: -1}
	if def {
		Step()
	} else {
		for _, c := range cases {
			c.begin(1)
		}
		wait("select", selOp(cases).ready)
		for _, c := range cases {
			c.begin(-1)
		}
	}
	for i, c := range cases {
		if c.ready() {
			r.I, r.c = i, c
			c.do(r)
			pump()
			break
		}
	}
	return r
}

// SelVal is the value a case of a select statement received.
func SelVal[T any](ch <-chan T, s *Sel) T {
	v, _ := SelVal2(ch, s)
	return v
}

// SelVal2 is the same with the second result.
//
//go:norace
func SelVal2[T any](_ <-chan T, s *Sel) (T, bool) {
	c := s.c.(*recvOp[T])
	return c.v, c.ok
}

// ---- condition variables

// Cond stands for sync.Cond.
type Cond struct {
	L sync.Locker
	q []*pending
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	x := &pending{}
	c.q = append(c.q, x)
	c.L.Unlock()
	wait("Cond.Wait", x.isTaken)
	acquire(&x.s)
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	Step()
	if len(c.q) > 0 {
		releaseMerge(&c.q[0].s)
		c.q[0].taken = true
		c.q = c.q[1:]
	}
	pump()
}

//go:norace
func (c *Cond) Broadcast() {
	Step()
	for _, x := range c.q {
		releaseMerge(&x.s)
		x.taken = true
	}
	c.q = nil
	pump()
}

// OnceFunc stands for sync.OnceFunc.
func OnceFunc(f func()) func() {
	o := &Once{}
	return func() { o.Do(f) }
}

// ---- goroutines of the code under test in sequential mode: each runs until it ends or blocks

type co struct {
	wake chan bool
	park chan struct{}
	cond func() bool
	done bool
	pan  interface{}
}

var seqCur *co
var parked []*co

func seqGo(f func()) {
	c := &co{wake: make(chan bool), park: make(chan struct{})}
	go func() {
		defer func() {
			if r := recover(); r != nil && !Aborted(r) {
				c.pan = r
			}
			c.done = true
			c.park <- struct{}{}
		}()
		if !<-c.wake {
			f()
		}
	}()
	seqRun(c)
}

func seqRun(c *co) {
	prev := seqCur
	seqCur = c
	c.wake <- false
	<-c.park
	seqCur = prev
	if c.pan != nil {
		panic(c.pan)
	}
	if !c.done {
		parked = append(parked, c)
		if len(parked) > 2000 {
			seqKill(1000)
		}
	}
}

// seqWait lets others run until cond holds; false if none can.
func seqWait(cond func() bool) bool {
	if c := seqCur; c != nil {
		c.cond = cond
		c.park <- struct{}{}
		if <-c.wake {
			panic(abortT{})
		}
		return true
	}
	for !cond() {
		if !seqStep() {
			if len(seqLater) == 0 {
				return false
			}
			f := seqLater[0]
			seqLater = seqLater[1:]
			seqGo(f)
		}
	}
	return true
}

func seqStep() bool {
	for i, c := range parked {
		if c.cond() {
			parked = append(parked[:i:i], parked[i+1:]...)
			seqRun(c)
			return true
		}
	}
	return false
}

// pump lets those run that have waited for what happened.
//
//go:norace
func pump() {
	if ex == nil && seqCur == nil && len(parked) > 0 && seqHeld == 0 {
		for seqStep() {
		}
	}
}

// seqKill ends the oldest waiting goroutines.
func seqKill(n int) {
	for ; n > 0 && len(parked) > 0; n-- {
		c := parked[0]
		parked = parked[1:]
		prev := seqCur
		seqCur = c
		c.wake <- true
		<-c.park
		seqCur = prev
	}
}
