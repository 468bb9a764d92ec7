package rt

import (
	"sync"
	"unsafe"
)

type core struct {
	writer  bool
	readers int
	waitW   int
	rs, ws  byte
}

//go:norace
func (m *core) lock() {
	e := ex
	if e == nil {
		if m.writer || m.readers > 0 {
			if !seqWait(func() bool { return !m.writer && m.readers == 0 }) {
				panic(Deadlock{"Lock on a lock that is never released"})
			}
		}
	} else {
		if e.abort {
			return
		}
		if e.fresh {
			e.fresh = false
		} else {
			e.cur.op, e.cur.m = opLockTry, m
			e.yield(false)
		}
		if m.writer || m.readers > 0 {
			m.waitW++
			e.cur.op, e.cur.m = opLockWait, m
			e.yield(false)
			m.waitW--
		}
	}
	m.writer = true
	held()
	acquire(&m.rs)
	acquire(&m.ws)
}

//go:norace
func (m *core) tryLock() bool {
	Step()
	if ex != nil && ex.abort {
		return true
	}
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	held()
	acquire(&m.rs)
	acquire(&m.ws)
	return true
}

//go:norace
func (m *core) unlock() {
	if ex != nil && ex.abort {
		return
	}
	if !m.writer {
		panic("unlock of unlocked mutex")
	}
	release(&m.rs)
	m.writer = false
	freed()
}

//go:norace
func (m *core) rlock() {
	e := ex
	if e == nil {
		if m.writer {
			if !seqWait(func() bool { return !m.writer }) {
				panic(Deadlock{"RLock on a lock that is never released"})
			}
		}
	} else {
		if e.abort {
			return
		}
		if e.fresh && !m.writer && m.waitW == 0 {
			e.fresh = false
		} else {
			e.fresh = false
			e.cur.op, e.cur.m = opRLock, m
			e.yield(false)
		}
	}
	m.readers++
	held()
	acquire(&m.rs)
}

//go:norace
func (m *core) tryRLock() bool {
	Step()
	if ex != nil && ex.abort {
		return true
	}
	if m.writer || m.waitW > 0 {
		return false
	}
	m.readers++
	held()
	acquire(&m.rs)
	return true
}

//go:norace
func (m *core) runlock() {
	if ex != nil && ex.abort {
		return
	}
	if m.readers <= 0 {
		panic("runlock of unlocked mutex")
	}
	releaseMerge(&m.ws)
	m.readers--
	freed()
}

// Sequential mode: locks held, and goroutines started meanwhile, which run when none is held any more.
var seqHeld int
var seqLater []func()

//go:norace
func held() {
	if ex == nil {
		seqHeld++
	}
}

//go:norace
func freed() {
	if ex != nil {
		return
	}
	if seqHeld > 0 {
		seqHeld--
	}
	for seqHeld == 0 && len(seqLater) > 0 {
		f := seqLater[0]
		seqLater = seqLater[1:]
		seqGo(f)
	}
	pump()
}

// Mutex stands for sync.Mutex.
type Mutex struct{ c core }

func (m *Mutex) Lock()         { m.c.lock() }
func (m *Mutex) TryLock() bool { return m.c.tryLock() }

// Unlock of a plain mutex orders everything before it ahead of the next Lock.
func (m *Mutex) Unlock() { m.c.unlock() }

// RWMutex stands for sync.RWMutex.
type RWMutex struct{ c core }

func (m *RWMutex) Lock()          { m.c.lock() }
func (m *RWMutex) TryLock() bool  { return m.c.tryLock() }
func (m *RWMutex) Unlock()        { m.c.unlock() }
func (m *RWMutex) RLock()         { m.c.rlock() }
func (m *RWMutex) TryRLock() bool { return m.c.tryRLock() }
func (m *RWMutex) RUnlock()       { m.c.runlock() }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker as in sync.
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

// Once stands for sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Map stands for sync.Map, each operation being a scheduling point.
type Map struct{ m sync.Map }

func (m *Map) Load(k interface{}) (interface{}, bool) { Step(); return m.m.Load(k) }
func (m *Map) Store(k, v interface{})                 { Step(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	Step()
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	Step()
	return m.m.LoadAndDelete(k)
}
func (m *Map) Delete(k interface{})                      { Step(); m.m.Delete(k) }
func (m *Map) Swap(k, v interface{}) (interface{}, bool) { Step(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n interface{}) bool   { Step(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o interface{}) bool    { Step(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v interface{}) bool)       { Step(); m.m.Range(f) }
func (m *Map) Clear()                                    { Step(); m.m.Range(func(k, _ interface{}) bool { m.m.Delete(k); return true }) }

// WaitGroup stands for sync.WaitGroup.
type WaitGroup struct {
	n int
	s byte
}

//go:norace
func (w *WaitGroup) Add(n int) { releaseMerge(&w.s); w.n += n }

//go:norace
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	e := ex
	if e == nil {
		if w.n > 0 && !seqWait(w.zero) {
			panic(Deadlock{"WaitGroup.Wait"})
		}
	} else if !e.abort {
		e.fresh = false
		e.cur.op = opOther
		e.cur.cond = w.zero
		e.yield(false)
	}
	acquire(&w.s)
}

//go:norace
func (w *WaitGroup) zero() bool { return w.n <= 0 }

// Go stands for the go statement in the code under test.
//
//go:norace
func Go(f func()) {
	e := ex
	if e == nil {
		if seqHeld > 0 {
			seqLater = append(seqLater, f)
		} else {
			seqGo(f) // sequential mode: run it at once, until it ends or blocks
		}
		return
	}
	if e.abort {
		return
	}
	t := &thread{id: len(e.threads), ch: make(chan struct{}), op: opStart, lib: true}
	e.threads = append(e.threads, t)
	spawn(e, t, f)
}

// ---- sync/atomic

func AddInt32(p *int32, d int32) int32                 { Step(); return atAddInt32(p, d) }
func AddInt64(p *int64, d int64) int64                 { Step(); return atAddInt64(p, d) }
func AddUint32(p *uint32, d uint32) uint32             { Step(); return atAddUint32(p, d) }
func AddUint64(p *uint64, d uint64) uint64             { Step(); return atAddUint64(p, d) }
func LoadInt32(p *int32) int32                         { Step(); return atLoadInt32(p) }
func LoadInt64(p *int64) int64                         { Step(); return atLoadInt64(p) }
func LoadUint32(p *uint32) uint32                      { Step(); return atLoadUint32(p) }
func LoadUint64(p *uint64) uint64                      { Step(); return atLoadUint64(p) }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { Step(); return atLoadPointer(p) }
func StoreInt32(p *int32, v int32)                     { Step(); atStoreInt32(p, v) }
func StoreInt64(p *int64, v int64)                     { Step(); atStoreInt64(p, v) }
func StoreUint32(p *uint32, v uint32)                  { Step(); atStoreUint32(p, v) }
func StoreUint64(p *uint64, v uint64)                  { Step(); atStoreUint64(p, v) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { Step(); atStorePointer(p, v) }
func SwapInt32(p *int32, v int32) int32                { Step(); return atSwapInt32(p, v) }
func SwapInt64(p *int64, v int64) int64                { Step(); return atSwapInt64(p, v) }
func SwapUint32(p *uint32, v uint32) uint32            { Step(); return atSwapUint32(p, v) }
func SwapUint64(p *uint64, v uint64) uint64            { Step(); return atSwapUint64(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	Step()
	return atSwapPointer(p, v)
}
func CompareAndSwapInt32(p *int32, o, n int32) bool    { Step(); return atCASInt32(p, o, n) }
func CompareAndSwapInt64(p *int64, o, n int64) bool    { Step(); return atCASInt64(p, o, n) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool { Step(); return atCASUint32(p, o, n) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool { Step(); return atCASUint64(p, o, n) }
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	Step()
	return atCASPointer(p, o, n)
}
