package rt

import "sync/atomic"

var (
	atAddInt32     = atomic.AddInt32
	atAddInt64     = atomic.AddInt64
	atAddUint32    = atomic.AddUint32
	atAddUint64    = atomic.AddUint64
	atLoadInt32    = atomic.LoadInt32
	atLoadInt64    = atomic.LoadInt64
	atLoadUint32   = atomic.LoadUint32
	atLoadUint64   = atomic.LoadUint64
	atLoadPointer  = atomic.LoadPointer
	atStoreInt32   = atomic.StoreInt32
	atStoreInt64   = atomic.StoreInt64
	atStoreUint32  = atomic.StoreUint32
	atStoreUint64  = atomic.StoreUint64
	atStorePointer = atomic.StorePointer
	atSwapInt32    = atomic.SwapInt32
	atSwapInt64    = atomic.SwapInt64
	atSwapUint32   = atomic.SwapUint32
	atSwapUint64   = atomic.SwapUint64
	atSwapPointer  = atomic.SwapPointer
	atCASInt32     = atomic.CompareAndSwapInt32
	atCASInt64     = atomic.CompareAndSwapInt64
	atCASUint32    = atomic.CompareAndSwapUint32
	atCASUint64    = atomic.CompareAndSwapUint64
	atCASPointer   = atomic.CompareAndSwapPointer
)

// Value stands for atomic.Value.
type Value struct{ v atomic.Value }

func (v *Value) Load() interface{}                    { Step(); return v.v.Load() }
func (v *Value) Store(x interface{})                  { Step(); v.v.Store(x) }
func (v *Value) Swap(x interface{}) interface{}       { Step(); return v.v.Swap(x) }
func (v *Value) CompareAndSwap(o, n interface{}) bool { Step(); return v.v.CompareAndSwap(o, n) }

// Bool stands for atomic.Bool.
type Bool struct{ v atomic.Bool }

func (b *Bool) Load() bool                    { Step(); return b.v.Load() }
func (b *Bool) Store(x bool)                  { Step(); b.v.Store(x) }
func (b *Bool) Swap(x bool) bool              { Step(); return b.v.Swap(x) }
func (b *Bool) CompareAndSwap(o, n bool) bool { Step(); return b.v.CompareAndSwap(o, n) }

// Int32 stands for atomic.Int32.
type Int32 struct{ v atomic.Int32 }

func (b *Int32) Load() int32                    { Step(); return b.v.Load() }
func (b *Int32) Store(x int32)                  { Step(); b.v.Store(x) }
func (b *Int32) Add(x int32) int32              { Step(); return b.v.Add(x) }
func (b *Int32) Swap(x int32) int32             { Step(); return b.v.Swap(x) }
func (b *Int32) CompareAndSwap(o, n int32) bool { Step(); return b.v.CompareAndSwap(o, n) }

// Int64 stands for atomic.Int64.
type Int64 struct{ v atomic.Int64 }

func (b *Int64) Load() int64                    { Step(); return b.v.Load() }
func (b *Int64) Store(x int64)                  { Step(); b.v.Store(x) }
func (b *Int64) Add(x int64) int64              { Step(); return b.v.Add(x) }
func (b *Int64) Swap(x int64) int64             { Step(); return b.v.Swap(x) }
func (b *Int64) CompareAndSwap(o, n int64) bool { Step(); return b.v.CompareAndSwap(o, n) }

// Uint32 stands for atomic.Uint32.
type Uint32 struct{ v atomic.Uint32 }

func (b *Uint32) Load() uint32                    { Step(); return b.v.Load() }
func (b *Uint32) Store(x uint32)                  { Step(); b.v.Store(x) }
func (b *Uint32) Add(x uint32) uint32             { Step(); return b.v.Add(x) }
func (b *Uint32) Swap(x uint32) uint32            { Step(); return b.v.Swap(x) }
func (b *Uint32) CompareAndSwap(o, n uint32) bool { Step(); return b.v.CompareAndSwap(o, n) }

// Uint64 stands for atomic.Uint64.
type Uint64 struct{ v atomic.Uint64 }

func (b *Uint64) Load() uint64                    { Step(); return b.v.Load() }
func (b *Uint64) Store(x uint64)                  { Step(); b.v.Store(x) }
func (b *Uint64) Add(x uint64) uint64             { Step(); return b.v.Add(x) }
func (b *Uint64) Swap(x uint64) uint64            { Step(); return b.v.Swap(x) }
func (b *Uint64) CompareAndSwap(o, n uint64) bool { Step(); return b.v.CompareAndSwap(o, n) }
