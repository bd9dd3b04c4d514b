// Package msync stands in for package sync in instrumented code.
package msync

import (
	"sync"
	"unsafe"

	"verif.local/mc/mcrt"
)

type Locker = sync.Locker

func ptr[T any](p *T) unsafe.Pointer { return unsafe.Pointer(p) }

// ---------------------------------------------------------------- Mutex

type Mutex struct {
	real sync.Mutex
	held bool
}

func (m *Mutex) Lock() {
	if !mcrt.On() {
		m.real.Lock()
		return
	}
	mcrt.WaitFalse(mcrt.OpLock, unsafe.Pointer(m), &m.held)
	m.held = true
	mcrt.RaceAcquire(unsafe.Pointer(m))
}

func (m *Mutex) TryLock() bool {
	if !mcrt.On() {
		return m.real.TryLock()
	}
	mcrt.Point(mcrt.OpTryLock, unsafe.Pointer(m))
	if m.held {
		return false
	}
	m.held = true
	mcrt.RaceAcquire(unsafe.Pointer(m))
	return true
}

func (m *Mutex) Unlock() {
	if !mcrt.On() {
		m.real.Unlock()
		return
	}
	mcrt.UnlockPoint(mcrt.OpUnlock, unsafe.Pointer(m))
	if !m.held {
		mcrt.Fatal("sync: unlock of unlocked mutex")
	}
	mcrt.RaceRelease(unsafe.Pointer(m))
	m.held = false
}

// ---------------------------------------------------------------- RWMutex

type RWMutex struct {
	real    sync.RWMutex
	w       bool // a writer holds or waits: new readers wait
	held    bool
	readers int32
	rc, wc  byte
}

func (m *RWMutex) Lock() {
	if !mcrt.On() {
		m.real.Lock()
		return
	}
	mcrt.WaitFalse(mcrt.OpLock, unsafe.Pointer(m), &m.w)
	m.w = true
	if m.readers != 0 {
		mcrt.WaitZero(mcrt.OpLock, unsafe.Pointer(m), &m.readers)
	}
	m.held = true
	mcrt.RaceAcquire(unsafe.Pointer(&m.rc))
	mcrt.RaceAcquire(unsafe.Pointer(&m.wc))
}

func (m *RWMutex) TryLock() bool {
	if !mcrt.On() {
		return m.real.TryLock()
	}
	mcrt.Point(mcrt.OpTryLock, unsafe.Pointer(m))
	if m.w || m.readers != 0 {
		return false
	}
	m.w, m.held = true, true
	mcrt.RaceAcquire(unsafe.Pointer(&m.rc))
	mcrt.RaceAcquire(unsafe.Pointer(&m.wc))
	return true
}

func (m *RWMutex) Unlock() {
	if !mcrt.On() {
		m.real.Unlock()
		return
	}
	mcrt.UnlockPoint(mcrt.OpUnlock, unsafe.Pointer(m))
	if !m.held {
		mcrt.Fatal("sync: Unlock of unlocked RWMutex")
	}
	mcrt.RaceRelease(unsafe.Pointer(&m.rc))
	m.w, m.held = false, false
}

func (m *RWMutex) RLock() {
	if !mcrt.On() {
		m.real.RLock()
		return
	}
	mcrt.WaitFalse(mcrt.OpRLock, unsafe.Pointer(m), &m.w)
	m.readers++
	mcrt.RaceAcquire(unsafe.Pointer(&m.rc))
}

func (m *RWMutex) TryRLock() bool {
	if !mcrt.On() {
		return m.real.TryRLock()
	}
	mcrt.Point(mcrt.OpTryLock, unsafe.Pointer(m))
	if m.w {
		return false
	}
	m.readers++
	mcrt.RaceAcquire(unsafe.Pointer(&m.rc))
	return true
}

func (m *RWMutex) RUnlock() {
	if !mcrt.On() {
		m.real.RUnlock()
		return
	}
	mcrt.UnlockPoint(mcrt.OpRUnlock, unsafe.Pointer(m))
	if m.readers <= 0 {
		mcrt.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	mcrt.RaceReleaseMerge(unsafe.Pointer(&m.wc))
	m.readers--
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// ---------------------------------------------------------------- WaitGroup

type WaitGroup struct {
	real    sync.WaitGroup
	n       int32
	waiters int32
	cell    byte
	w       [16]mcrt.Waiter
	nw      int
}

func (g *WaitGroup) Add(d int) {
	if !mcrt.On() {
		g.real.Add(d)
		return
	}
	mcrt.Point(mcrt.OpWgAdd, unsafe.Pointer(g))
	if d < 0 {
		mcrt.RaceReleaseMerge(unsafe.Pointer(&g.cell))
	}
	g.n += int32(d)
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.nw != 0 && d > 0 && g.n == int32(d) {
		panic("sync: WaitGroup misuse: Add called concurrently with Wait")
	}
	if g.n == 0 {
		for i := 0; i < g.nw; i++ {
			g.w[i].Wake()
		}
		g.nw = 0
	}
}
func (g *WaitGroup) Done() {
	if !mcrt.On() {
		g.real.Done()
		return
	}
	g.Add(-1)
}

func (g *WaitGroup) Wait() {
	if !mcrt.On() {
		g.real.Wait()
		return
	}
	mcrt.Point(mcrt.OpWgWait, unsafe.Pointer(g))
	if g.n != 0 {
		if g.nw >= len(g.w) {
			panic("mcrt: too many WaitGroup waiters")
		}
		g.w[g.nw] = mcrt.NewWaiter()
		g.nw++
		mcrt.WaitWoken(mcrt.OpWgWait, unsafe.Pointer(g))
		if g.n != 0 || g.nw != 0 {
			panic("sync: WaitGroup is reused before previous Wait has returned")
		}
	}
	mcrt.RaceAcquire(unsafe.Pointer(&g.cell))
}

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	mcrt.Go(func() {
		defer g.Done()
		f()
	})
}

// ---------------------------------------------------------------- Once

type Once struct {
	m    Mutex
	done bool
	cell byte
}

func (o *Once) Do(f func()) {
	mcrt.Point(mcrt.OpOnce, unsafe.Pointer(o))
	if o.isDone() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer o.set()
		f()
	}
}

func (o *Once) isDone() bool {
	if o.done {
		mcrt.RaceAcquire(unsafe.Pointer(&o.cell))
	}
	return o.done
}
func (o *Once) set() { o.done = true; mcrt.RaceRelease(unsafe.Pointer(&o.cell)) }

func OnceFunc(f func()) func() {
	var o Once
	var p any
	ok := false
	return func() {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
					panic(p)
				}
			}()
			f()
			ok = true
		})
		if !ok {
			panic(p)
		}
	}
}
func OnceValue[T any](f func() T) func() T {
	var v T
	g := OnceFunc(func() { v = f() })
	return func() T { g(); return v }
}
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var v T1
	var w T2
	g := OnceFunc(func() { v, w = f() })
	return func() (T1, T2) { g(); return v, w }
}

// ---------------------------------------------------------------- Cond

type Cond struct {
	L    Locker
	real *sync.Cond
	w    [16]mcrt.Waiter
	n    int
	once sync.Mutex
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) r() *sync.Cond {
	c.once.Lock()
	defer c.once.Unlock()
	if c.real == nil {
		c.real = sync.NewCond(c.L)
	}
	return c.real
}

func (c *Cond) Wait() {
	if !mcrt.On() {
		c.r().Wait()
		return
	}
	if c.n >= len(c.w) {
		panic("mcrt: too many Cond waiters")
	}
	c.w[c.n] = mcrt.NewWaiter()
	c.n++
	c.L.Unlock()
	mcrt.WaitWoken(mcrt.OpCondWait, unsafe.Pointer(c))
	c.L.Lock()
}

func (c *Cond) Signal() {
	if !mcrt.On() {
		c.r().Signal()
		return
	}
	mcrt.Point(mcrt.OpCondSignal, unsafe.Pointer(c))
	if c.n > 0 {
		c.w[0].Wake()
		for i := 1; i < c.n; i++ {
			c.w[i-1] = c.w[i]
		}
		c.n--
	}
}

func (c *Cond) Broadcast() {
	if !mcrt.On() {
		c.r().Broadcast()
		return
	}
	mcrt.Point(mcrt.OpCondSignal, unsafe.Pointer(c))
	for i := 0; i < c.n; i++ {
		c.w[i].Wake()
	}
	c.n = 0
}

// ---------------------------------------------------------------- Map

const maxEntries = 64

type entry struct {
	k    any
	v    any
	live bool
	cell byte
}

// Map keeps insertion order; a deleted key keeps its entry so that observing its absence is ordered after the delete.
type Map struct {
	real sync.Map
	e    []*entry
	n    int
	seen bool
}

func (m *Map) find(k any, add bool) *entry {
	for i := 0; i < m.n; i++ {
		if m.e[i].k == k {
			mcrt.RaceAcquire(unsafe.Pointer(&m.e[i].cell))
			return m.e[i]
		}
	}
	if !add {
		checkKey(k)
		return nil
	}
	checkKey(k)
	if m.n >= len(m.e) {
		e := make([]*entry, 8+2*len(m.e)) // by hand: append and copy tell the race detector
		for i := range m.e {
			e[i] = m.e[i]
		}
		m.e = e
	}
	m.e[m.n] = &entry{k: k}
	m.n++
	return m.e[m.n-1]
}

// checkKey panics for unhashable keys like a map access does.
func checkKey(k any) {
	var probe map[any]struct{}
	_ = probe[k]
}

func (e *entry) set(v any) {
	e.v, e.live = v, true
	mcrt.RaceRelease(unsafe.Pointer(&e.cell))
}
func (e *entry) del() {
	e.v, e.live = nil, false
	mcrt.RaceRelease(unsafe.Pointer(&e.cell))
}

func (m *Map) Load(k any) (any, bool) {
	if !mcrt.On() {
		return m.real.Load(k)
	}
	mcrt.Point(mcrt.OpMap, unsafe.Pointer(m))
	m.sync()
	if e := m.find(k, false); e != nil && e.live {
		return e.v, true
	}
	return nil, false
}

// sync copies entries stored before the execution became active.
func (m *Map) sync() {
	if m.seen {
		return
	}
	m.seen = true
	m.real.Range(func(k, v any) bool {
		m.find(k, true).set(v)
		return true
	})
}

func (m *Map) Store(k, v any) {
	if !mcrt.On() {
		m.real.Store(k, v)
		return
	}
	mcrt.Point(mcrt.OpMap, unsafe.Pointer(m))
	m.sync()
	m.find(k, true).set(v)
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	if !mcrt.On() {
		return m.real.LoadOrStore(k, v)
	}
	mcrt.Point(mcrt.OpMap, unsafe.Pointer(m))
	m.sync()
	e := m.find(k, true)
	if e.live {
		return e.v, true
	}
	e.set(v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	if !mcrt.On() {
		return m.real.LoadAndDelete(k)
	}
	mcrt.Point(mcrt.OpMap, unsafe.Pointer(m))
	m.sync()
	e := m.find(k, false)
	if e == nil || !e.live {
		return nil, false
	}
	v := e.v
	e.del()
	return v, true
}

func (m *Map) Delete(k any) {
	if !mcrt.On() {
		m.real.Delete(k)
		return
	}
	m.LoadAndDelete(k)
}

func (m *Map) Swap(k, v any) (any, bool) {
	if !mcrt.On() {
		return m.real.Swap(k, v)
	}
	mcrt.Point(mcrt.OpMap, unsafe.Pointer(m))
	m.sync()
	e := m.find(k, true)
	old, live := e.v, e.live
	e.set(v)
	return old, live
}

func (m *Map) CompareAndSwap(k, old, v any) bool {
	if !mcrt.On() {
		return m.real.CompareAndSwap(k, old, v)
	}
	mcrt.Point(mcrt.OpMap, unsafe.Pointer(m))
	m.sync()
	e := m.find(k, false)
	if e == nil || !e.live || e.v != old {
		return false
	}
	e.set(v)
	return true
}

func (m *Map) CompareAndDelete(k, old any) bool {
	if !mcrt.On() {
		return m.real.CompareAndDelete(k, old)
	}
	mcrt.Point(mcrt.OpMap, unsafe.Pointer(m))
	m.sync()
	e := m.find(k, false)
	if e == nil || !e.live || e.v != old {
		return false
	}
	e.del()
	return true
}

func (m *Map) Clear() {
	if !mcrt.On() {
		m.real.Clear()
		return
	}
	mcrt.Point(mcrt.OpMap, unsafe.Pointer(m))
	m.sync()
	for i := 0; i < m.n; i++ {
		mcrt.RaceAcquire(unsafe.Pointer(&m.e[i].cell))
		m.e[i].del()
	}
}

// Range visits one entry per step; whether an entry added meanwhile is visited is a choice, as the documentation allows both.
func (m *Map) Range(f func(k, v any) bool) {
	if !mcrt.On() {
		m.real.Range(f)
		return
	}
	mcrt.Point(mcrt.OpMap, unsafe.Pointer(m))
	m.sync()
	start := m.n
	for i := 0; i < m.n; i++ {
		if i > 0 {
			mcrt.Point(mcrt.OpMap, unsafe.Pointer(m))
		}
		e := m.e[i]
		if !e.live {
			continue
		}
		if i >= start && mcrt.Choose(2) == 1 {
			continue
		}
		mcrt.RaceAcquire(unsafe.Pointer(&e.cell))
		if !f(e.k, e.v) {
			return
		}
	}
}

// ---------------------------------------------------------------- Pool

// Pool hands out the item put last: the choice most likely to expose sharing.
type Pool struct {
	New  func() any
	real sync.Pool
	e    *[maxEntries]any
	n    int
	cell byte
}

func (p *Pool) Get() any {
	if mcrt.On() {
		mcrt.Point(mcrt.OpPool, unsafe.Pointer(p))
		if p.n > 0 {
			p.n--
			mcrt.RaceAcquire(unsafe.Pointer(&p.cell))
			v := p.e[p.n]
			p.e[p.n] = nil
			return v
		}
	} else if v := p.real.Get(); v != nil {
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	if !mcrt.On() {
		p.real.Put(v)
		return
	}
	mcrt.Point(mcrt.OpPool, unsafe.Pointer(p))
	if p.e == nil {
		p.e = new([maxEntries]any)
	}
	if p.n < maxEntries {
		mcrt.RaceReleaseMerge(unsafe.Pointer(&p.cell))
		p.e[p.n] = v
		p.n++
	}
}
