// Package mcrt is a controlled scheduler for stateless model checking of Go code.
//
// Code instrumented by cmd/instrument calls into this package at every goroutine start, channel operation and
// (through msync, matomic, mtime, msignal) every synchronisation, atomic, timer and signal operation.  While an
// execution is active exactly one controlled goroutine runs at a time and every point where another one could run
// instead is a recorded choice, so that Explore can enumerate all of them up to a preemption bound.
//
// This package and its subpackages are compiled without race instrumentation (-gcflags -race=false); the scheduler's
// own hand-overs are hidden from the race detector (RaceDisable) and the happens-before edges of the modelled
// operations are reported to it explicitly, so the detector judges each explored schedule by the program's own
// synchronisation only.
//
// Code reached from controlled goroutines must not use append or maps on shared data in here: those are
// race-annotated inside the runtime.
package mcrt

import (
	"runtime"
	"unsafe"
)

const (
	maxThreads = 64
	maxTimers  = 64
	maxDepth   = 200000
	maxTrace   = 20000
	maxCases   = 12
)

type waitKind uint8

const (
	wReady  waitKind = iota // enabled
	wFalse                  // until *bool is false
	wZero32                 // until *int32 is 0
	wFlag                   // until thread.flag is set
	wChan                   // parked on channel cases
	wForever
)

type thread struct {
	id    int32
	alive bool
	sem   chan struct{}

	wk   waitKind
	wobj unsafe.Pointer
	flag bool

	yield bool // at a voluntary yield: others may run without that counting as a preemption

	// channel parking
	cases  [maxCases]Case
	ncases int
	fired  int32 // index of the case completed by a partner, -1 if none
	seq    int64 // park order

	idle bool // runner of a timer that has not fired

	op   Op
	obj  unsafe.Pointer
	pc   uintptr
	cell [2]int64 // race annotation addresses

	name string
}

// Op names an operation in traces.
type Op uint8

const (
	OpStart Op = iota
	OpGo
	OpLock
	OpUnlock
	OpRLock
	OpRUnlock
	OpTryLock
	OpWgAdd
	OpWgWait
	OpCondWait
	OpCondSignal
	OpOnce
	OpAtomic
	OpMap
	OpSend
	OpRecv
	OpSelect
	OpClose
	OpSleep
	OpTimer
	OpYield
	OpCtx
	OpSignal
	OpExit
	OpPool
	OpUser
	OpFire
	OpPanic
	OpEnd
	OpJoin
)

var opNames = [...]string{"start", "go", "lock", "unlock", "rlock", "runlock", "trylock", "wg.add", "wg.wait", "cond.wait", "cond.signal",
	"once", "atomic", "map", "send", "recv", "select", "close", "sleep", "timer", "yield", "ctx", "signal", "exit", "pool", "user", "fire-timer", "panic", "end", "join"}

func (o Op) String() string { return opNames[o] }

type choice struct {
	n, chosen int16
}

type event struct {
	thread int32
	op     Op
	obj    unsafe.Pointer
	pc     uintptr
	vnow   int64
}

type status uint8

const (
	stRunning  status = iota
	stDone            // main finished and nothing can run any more
	stDeadlock        // main cannot finish
	stPanic           // a goroutine panicked
	stFatal           // fatal error (unlock of unlocked mutex...), misuse
	stExit            // os.Exit was called
	stSteps           // step limit
	stInternal        // harness limit or nondeterminism
)

type timer struct {
	when  int64
	seq   int64
	armed bool
	// what happens
	thread *thread // wake (Sleep, or the runner of f)
	f      func()  // run in its own thread
	ch     func()  // non-blocking send done by the scheduler
	period int64
}

// Timer is the scheduler's side of a timer.
type Timer = timer

var S struct {
	active  bool
	abort   bool
	cur     *thread
	n       int32
	threads [maxThreads]thread
	done    chan struct{}
	nEnded  int // goroutines that ended by themselves and passed control on
	spawned int
	parked  bool // the goroutine that finished the execution is parked

	path      [maxDepth]choice
	depth     int
	replayLen int
	acceptN   bool
	preempts  int
	maxPre    int
	steps     int64
	maxSteps  int64
	freeNext  bool // after a timer fired as a preemption the next choice is free

	vnow       int64
	seq        int64
	timers     [maxTimers]*timer
	ntimer     int
	keepTimers bool // keep firing timers after main finished

	mainDone bool
	st       status
	failMsg  string
	failT    int32
	failVal  any
	failPCs  [64]uintptr
	failN    int
	exitCode int
	exited   chan struct{}

	tracing bool
	trace   [maxTrace]event
	ntrace  int

	unlockPoints bool
	curSteps     int64 // progress counter for the watchdog
	join         int64 // race cell: everything that happened in an execution
}

// On reports whether the calling goroutine runs under the scheduler.
func On() bool { return S.active }

func fail(st status, msg string) {
	if S.st == stRunning {
		S.st, S.failMsg = st, msg
		if S.cur != nil {
			S.failT = S.cur.id
		}
		S.failN = runtime.Callers(2, S.failPCs[:])
	}
	if S.cur != nil && !S.cur.alive {
		S.nEnded--
	}
	finish()
	runtime.Goexit()
}

// Fatal ends the execution the way an unrecoverable runtime error would.
func Fatal(msg string) { fail(stFatal, msg) }

// finish hands control back to the explorer; the caller must not continue.
func finish() {
	S.abort = true
	raceOff()
	S.done <- struct{}{}
	raceOn()
}

//go:noinline
func choose(n int) int {
	if n <= 1 {
		return 0
	}
	d := S.depth
	if d >= maxDepth {
		fail(stInternal, "choice depth limit")
	}
	S.depth++
	if d < S.replayLen {
		if S.path[d].n < 0 && S.acceptN {
			S.path[d].n = int16(n)
		}
		if int(S.path[d].n) != n || int(S.path[d].chosen) >= n {
			fail(stInternal, "nondeterministic replay")
		}
		return int(S.path[d].chosen)
	}
	S.path[d] = choice{int16(n), 0}
	return 0
}

// Choose is a nondeterministic choice made by the harness: all values 0..n-1 are explored.
func Choose(n int) int {
	if !S.active {
		return 0
	}
	return choose(n)
}

func caseReady(t *thread, c *Case) bool {
	h := c.h
	if h == nil {
		return false
	}
	if h.closed != 0 {
		return true
	}
	if c.send {
		if h.dataqsiz > 0 {
			return h.qcount < h.dataqsiz
		}
	} else {
		if h.dataqsiz > 0 {
			return h.qcount > 0
		}
	}
	return partner(t, c) != nil
}

// partner finds the longest parked thread that can complete c on an unbuffered channel.
func partner(t *thread, c *Case) *thread {
	if c.h.dataqsiz > 0 {
		return nil
	}
	var best *thread
	for i := int32(0); i < S.n; i++ {
		p := &S.threads[i]
		if p == t || !p.alive || p.wk != wChan || p.fired >= 0 {
			continue
		}
		for k := 0; k < p.ncases; k++ {
			if p.cases[k].h == c.h && p.cases[k].send != c.send {
				if best == nil || p.seq < best.seq {
					best = p
				}
				break
			}
		}
	}
	return best
}

func enabled(t *thread) bool {
	if !t.alive {
		return false
	}
	switch t.wk {
	case wReady:
		return true
	case wFalse:
		return !*(*bool)(t.wobj)
	case wZero32:
		return *(*int32)(t.wobj) == 0
	case wFlag:
		return t.flag
	case wChan:
		if t.fired >= 0 {
			return true
		}
		for i := 0; i < t.ncases; i++ {
			c := &t.cases[i]
			if c.h == nil {
				continue
			}
			if c.h.closed != 0 {
				return true
			}
			if c.h.dataqsiz > 0 {
				if c.send && c.h.qcount < c.h.dataqsiz || !c.send && c.h.qcount > 0 {
					return true
				}
			}
		}
		return false
	}
	return false
}

func earliest() *timer {
	var best *timer
	for i := 0; i < S.ntimer; i++ {
		t := S.timers[i]
		if t.armed && (best == nil || t.when < best.when || t.when == best.when && t.seq < best.seq) {
			best = t
		}
	}
	return best
}

// schedule picks who runs next; it returns when t is chosen again (or never, if t has ended).
func schedule(t *thread) {
	if S.abort {
		runtime.Goexit()
	}
	S.steps++
	S.curSteps++
	if S.steps > S.maxSteps {
		fail(stSteps, "step limit reached: the execution does not terminate")
	}
	var cand [maxThreads]*thread
	for {
		n := 0
		self := false
		if enabled(t) {
			self = true
			cand[0] = t
			n = 1
		}
		for k := int32(1); k < S.n; k++ {
			i := t.id + k
			if i >= S.n {
				i -= S.n
			}
			if th := &S.threads[i]; enabled(th) {
				cand[n] = th
				n++
			}
		}
		var tm *timer
		if S.ntimer > 0 && (!S.mainDone || S.keepTimers) {
			tm = earliest()
		}
		if n == 0 && tm == nil {
			if S.mainDone {
				S.st = stDone
			} else {
				S.st = stDeadlock
			}
			if !t.alive {
				S.nEnded--
				finish()
				return
			}
			S.parked = true
			finish()
			park(t)
			return
		}
		free := !self || t.yield || S.freeNext
		left := S.maxPre - S.preempts
		total := n
		hasTimer := false
		if tm != nil && (n == 0 || left > 0) {
			hasTimer = true
		}
		if !free && left <= 0 {
			total = 1
		}
		alts := total
		if hasTimer {
			alts++
		}
		var pick int
		if t.yield && self && total == 1 && hasTimer && n == 1 {
			// nobody else can run: let time pass first
			pick = 1 - choose(alts)
		} else if t.yield && self && total > 1 && !S.freeNext {
			// a voluntary yield prefers the others
			pick = choose(alts)
			if pick < total {
				pick = (pick + 1) % total
			}
		} else {
			pick = choose(alts)
		}
		if hasTimer && pick == total {
			if n > 0 {
				S.preempts++
				S.freeNext = true
			}
			fire(tm)
			continue
		}
		S.freeNext = false
		next := cand[pick]
		if next != t && !free {
			S.preempts++
		}
		t.yield = false
		if next == t {
			if S.tracing {
				record(t)
			}
			return
		}
		S.cur = next
		if S.tracing {
			record(next)
		}
		if !t.alive {
			raceOff()
			next.sem <- struct{}{}
			raceOn()
			return
		}
		raceOff()
		next.sem <- struct{}{}
		<-t.sem
		raceOn()
		if S.abort {
			runtime.Goexit()
		}
		return
	}
}

// park waits to be ended.
func park(t *thread) {
	raceOff()
	<-t.sem
	raceOn()
	runtime.Goexit()
}

func record(t *thread) {
	if S.ntrace < maxTrace {
		S.trace[S.ntrace] = event{t.id, t.op, t.obj, t.pc, S.vnow}
		S.ntrace++
	}
}

func mark(t *thread, op Op, obj unsafe.Pointer) {
	t.op, t.obj = op, obj
	if S.tracing {
		var pcs [24]uintptr
		n := runtime.Callers(3, pcs[:])
		t.pc = 0
		for i := 0; i < n; i++ {
			if f := runtime.FuncForPC(pcs[i] - 1); f != nil && !internalFunc(f.Name()) {
				t.pc = pcs[i]
				break
			}
		}
	}
}

func internalFunc(s string) bool {
	const p = "verif.local/mc/mcrt"
	return len(s) > len(p) && s[:len(p)] == p || len(s) > 8 && (s[:8] == "context." || s[:8] == "runtime.")
}

// Point is a scheduling point before a visible operation that cannot block.
func Point(op Op, obj unsafe.Pointer) {
	if !S.active {
		return
	}
	t := S.cur
	mark(t, op, obj)
	t.wk = wReady
	schedule(t)
}

// WaitFalse blocks until *p is false.  The wait and whatever the caller does next (up to its next point) are one step.
func WaitFalse(op Op, obj unsafe.Pointer, p *bool) {
	t := S.cur
	mark(t, op, obj)
	t.wk, t.wobj = wFalse, unsafe.Pointer(p)
	schedule(t)
	t.wk = wReady
}

func WaitZero(op Op, obj unsafe.Pointer, p *int32) {
	t := S.cur
	mark(t, op, obj)
	t.wk, t.wobj = wZero32, unsafe.Pointer(p)
	schedule(t)
	t.wk = wReady
}

// Waiter is a thread waiting to be woken explicitly.
type Waiter struct{ t *thread }

// NewWaiter prepares the current thread for WaitWoken.
func NewWaiter() Waiter {
	t := S.cur
	t.flag = false
	return Waiter{t}
}

func (w Waiter) Wake()     { w.t.flag = true; RaceReleaseMerge(unsafe.Pointer(&w.t.cell[0])) }
func (w Waiter) Nil() bool { return w.t == nil }

func WaitWoken(op Op, obj unsafe.Pointer) {
	t := S.cur
	mark(t, op, obj)
	t.wk = wFlag
	schedule(t)
	t.wk = wReady
	RaceAcquire(unsafe.Pointer(&t.cell[0]))
}

// Yield lets others run.
func Yield() {
	if !S.active {
		runtime.Gosched()
		return
	}
	t := S.cur
	mark(t, OpYield, nil)
	t.wk = wReady
	t.yield = true
	schedule(t)
}

func BlockForever() {
	if !S.active {
		select {}
	}
	t := S.cur
	mark(t, OpSelect, nil)
	t.wk = wForever
	schedule(t)
}

// UnlockPoint is the scheduling point before a release.
func UnlockPoint(op Op, obj unsafe.Pointer) {
	if S.unlockPoints {
		Point(op, obj)
	}
}

// Go starts a controlled goroutine.
func Go(f func()) {
	if !S.active {
		go f()
		return
	}
	if S.abort {
		runtime.Goexit()
	}
	t := newThread()
	go run(t, f)
	Point(OpGo, nil)
}

// GoQuiet starts a controlled goroutine without a scheduling point.
func GoQuiet(f func()) {
	t := newThread()
	go run(t, f)
}

func newThread() *thread {
	if S.n >= maxThreads {
		// reuse a finished slot
		for i := int32(1); i < S.n; i++ {
			if t := &S.threads[i]; !t.alive {
				resetThread(t, i)
				S.spawned++
				return t
			}
		}
		fail(stInternal, "too many goroutines")
	}
	t := &S.threads[S.n]
	resetThread(t, S.n)
	S.spawned++
	S.n++
	return t
}

func resetThread(t *thread, id int32) {
	t.id, t.alive, t.wk, t.flag, t.yield, t.ncases, t.fired = id, true, wReady, false, false, 0, -1
	t.op, t.obj, t.pc, t.idle = OpStart, nil, 0, false
	for i := range t.cases {
		t.cases[i] = Case{}
	}
}

func run(t *thread, f func()) {
	defer exited()
	raceOff()
	<-t.sem
	raceOn()
	defer ended(t)
	if S.abort {
		return
	}
	f()
}

func exited() {
	raceOff()
	S.exited <- struct{}{}
	raceOn()
}

func ended(t *thread) {
	r := recover()
	t.alive = false
	RaceReleaseMerge(unsafe.Pointer(&S.join))
	if S.abort {
		return
	}
	if r != nil {
		if S.st == stRunning {
			S.st, S.failT, S.failVal = stPanic, t.id, r
			S.failN = runtime.Callers(2, S.failPCs[:])
		}
		finish()
		return
	}
	S.nEnded++
	if t.id == 0 {
		S.mainDone = true
	}
	t.op = OpEnd
	schedule(t)
}

// ---------------------------------------------------------------- timers

// Now is the virtual time in nanoseconds; it moves by one on every reading.
func Now() int64 {
	S.vnow++
	return S.vnow
}

// VNow reads the virtual clock without moving it.
func VNow() int64 { return S.vnow }

// AddTimer arms a timer d nanoseconds from now.
func (t *timer) arm(d int64) {
	if d < 0 {
		d = 0
	}
	if t.f != nil && t.thread == nil {
		// the runner is created where the timer is armed: that is the happens-before edge a timer gives
		th := newThread()
		th.wk, th.idle = wFlag, true
		t.thread = th
		go run(th, t.f)
	}
	S.seq++
	t.when, t.seq = S.vnow+d, S.seq
	if !t.armed {
		t.armed = true
		for i := 0; i < S.ntimer; i++ {
			if S.timers[i] == t {
				return
			}
		}
		// reuse a dead slot
		for i := 0; i < S.ntimer; i++ {
			if !S.timers[i].armed {
				S.timers[i] = t
				return
			}
		}
		if S.ntimer >= maxTimers {
			fail(stInternal, "too many timers")
		}
		S.timers[S.ntimer] = t
		S.ntimer++
	}
}

func (t *timer) Arm(d int64)       { t.arm(d) }
func (t *timer) SetPeriod(p int64) { t.period = p }
func (t *timer) Disarm() bool {
	was := t.armed
	t.armed = false
	return was
}
func NewFuncTimer(f func()) *timer { return &timer{f: f} }
func NewChanTimer(f func()) *timer { return &timer{ch: f} }

func fire(t *timer) {
	if t.when > S.vnow {
		S.vnow = t.when
	}
	t.armed = false
	if t.period > 0 {
		t.armed = true
		S.seq++
		t.when, t.seq = t.when+t.period, S.seq
	}
	if S.tracing && S.ntrace < maxTrace {
		S.trace[S.ntrace] = event{-1, OpFire, unsafe.Pointer(t), 0, S.vnow}
		S.ntrace++
	}
	switch {
	case t.f != nil:
		t.thread.flag, t.thread.idle, t.thread.wk = true, false, wReady
		t.thread = nil
	case t.thread != nil:
		t.thread.flag = true
	case t.ch != nil:
		raceOff()
		t.ch()
		raceOn()
	}
}

func Sleep(d int64) {
	t := S.cur
	if d <= 0 {
		Yield()
		return
	}
	t.flag = false
	tm := &timer{thread: t}
	tm.arm(d)
	mark(t, OpSleep, nil)
	t.wk = wFlag
	schedule(t)
	t.wk = wReady
}

// ---------------------------------------------------------------- process exit

// Exit models os.Exit.
func Exit(code int) {
	if !S.active {
		panic("mcrt: os.Exit outside an execution")
	}
	Point(OpExit, nil)
	S.exitCode = code
	fail(stExit, "os.Exit")
}
