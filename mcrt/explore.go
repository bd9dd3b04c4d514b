package mcrt

import (
	"bytes"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"
	"unsafe"
)

// X is the harness's view of the running execution.
type X struct {
	fails []failure
	out   []string
	notes []string
	// Judge judges an execution whose Body never returned (it blocked for ever, or the process exited before).
	Judge func(*X, *Info)
}

type failure struct{ key, msg string }

// Failf records that the execution violates the property; the execution goes on.
func (x *X) Failf(key, f string, args ...any) {
	if len(x.fails) < 20 {
		x.fails = append(x.fails, failure{key, fmt.Sprintf(f, args...)})
	}
}

// Outf contributes to the outcome of the execution (the set of distinct outcomes is reported).
func (x *X) Outf(f string, args ...any) { x.out = append(x.out, fmt.Sprintf(f, args...)) }

// Info describes how an execution ended.
type Info struct {
	Status  string // done, deadlock, panic, fatal, exit, steps
	Msg     string
	Code    int
	Leaked  []string // goroutines that never ended, with what they wait for
	Blocked []string // deadlock: what everyone waits for
	VNow    int64
	Site    string
}

// Scenario is one concurrent program to explore.
type Scenario struct {
	Name string
	// Body runs as the main controlled goroutine.  What it returns (may be nil) judges the execution afterwards, outside
	// the scheduler; it decides itself about i.Status and i.Leaked.  Without it the default applies: deadlock, panic,
	// fatal errors, exits and leaked goroutines are violations.
	Body func(x *X) func(x *X, i *Info)
	// AllowLeak lets goroutines outlive the main one.
	AllowLeak bool
	// NoUnlockPoints drops the scheduling points before unlocks (sound when nothing polls the lock).
	NoUnlockPoints bool
	KeepTimers     bool // keep firing timers after main has ended
	MaxSteps       int64
	MaxBound       int  // do not explore beyond this bound (0: the check's; -1: no preemption at all)
	QuickBound     int  // same, quick tier only
	NoRace         bool // do not treat race reports as violations
}

// Result of exploring (a part of) a scenario.
type Result struct {
	Scenario   string           `json:"scenario"`
	Bound      int              `json:"bound"`
	Execs      int64            `json:"execs"`
	Steps      int64            `json:"steps"`
	MaxDepth   int              `json:"maxdepth"`
	MaxThreads int              `json:"maxthreads"`
	Outcomes   map[string]int64 `json:"outcomes"`
	Complete   bool             `json:"complete"`
	Stopped    bool             `json:"stopped,omitempty"` // out of time
	Internal   string           `json:"internal,omitempty"`
	Viol       []Viol           `json:"viol,omitempty"`
	Prefixes   [][]int16        `json:"prefixes,omitempty"`
	Rest       [][]int16        `json:"rest,omitempty"` // subtrees left when the number of executions ran out
	Replayed   int64            `json:"replayed"`
	Nodes      int64            `json:"nodes"`
}

type Viol struct {
	Key      string   `json:"key"`
	Msg      string   `json:"msg"`
	Schedule []int16  `json:"schedule"`
	Trace    []string `json:"trace,omitempty"`
}

// resets restore package-level variables between executions, in registration (initialisation) order.
var resets []func()

func OnReset(f func()) { resets = append(resets, f) }

// RaceLog returns the text of race reports written since the last call (set by the driver).
var RaceLog func() string

// runOnce executes the scenario along path[:replay], extending it with first choices.
func runOnce(sc *Scenario, bound, replay int, trace bool) (*X, *Info) {
	if S.done == nil {
		S.done = make(chan struct{}, 1)
		S.exited = make(chan struct{}, 1<<14)
		for i := range S.threads {
			S.threads[i].sem = make(chan struct{}, 1)
		}
	}
	for _, f := range resets {
		f()
	}
	S.n, S.depth, S.replayLen, S.preempts, S.maxPre = 0, 0, replay, 0, bound
	S.steps, S.maxSteps = 0, sc.MaxSteps
	if S.maxSteps == 0 {
		S.maxSteps = 20000
	}
	S.freeNext, S.vnow, S.seq = false, 0, 0
	for i := 0; i < S.ntimer; i++ {
		S.timers[i] = nil
	}
	S.ntimer, S.keepTimers = 0, sc.KeepTimers
	S.mainDone, S.st, S.failMsg, S.failVal, S.failN, S.failT, S.exitCode = false, stRunning, "", nil, 0, -1, 0
	S.tracing, S.ntrace = trace, 0
	S.unlockPoints = !sc.NoUnlockPoints
	S.nEnded, S.spawned, S.parked = 0, 0, false
	resetSignals()
	x := &X{}
	var after func(*X, *Info)
	t := newThread()
	S.cur = t
	S.abort = false
	S.active = true
	go run(t, func() { after = sc.Body(x) })
	raceOff()
	t.sem <- struct{}{}
	<-S.done
	raceOn()
	// the execution is over: collect what is left, then end it
	info := &Info{VNow: S.vnow, Msg: S.failMsg, Code: S.exitCode}
	fin := S.cur
	left := 0
	for i := int32(0); i < S.n; i++ {
		th := &S.threads[i]
		if !th.alive || th.idle {
			continue
		}
		if S.st == stDone || S.st == stDeadlock {
			s := waitDesc(th)
			if S.st == stDone {
				info.Leaked = append(info.Leaked, s)
			} else {
				info.Blocked = append(info.Blocked, s)
			}
		}
		left++
	}
	switch S.st {
	case stDone:
		info.Status = "done"
	case stDeadlock:
		info.Status = "deadlock"
	case stPanic:
		info.Status = "panic"
		info.Msg = fmt.Sprint(S.failVal)
	case stFatal:
		info.Status = "fatal"
	case stExit:
		info.Status = "exit"
	case stSteps:
		info.Status = "steps"
	case stInternal:
		info.Status = "internal"
	}
	info.Site = failSite()
	// the goroutines that ended by themselves
	for i := 0; i < S.nEnded; i++ {
		waitExited()
	}
	gone := S.nEnded
	if !S.parked {
		waitExited()
		gone++
	}
	for i := int32(0); i < S.n && gone < S.spawned; i++ {
		th := &S.threads[i]
		if th == fin && !S.parked || !th.alive {
			continue
		}
		S.cur = th
		raceOff()
		th.sem <- struct{}{}
		raceOn()
		waitExited()
		gone++
	}
	if gone != S.spawned {
		fmt.Fprintf(os.Stderr, "mcrt: lost track of goroutines: %d of %d ended (status %d)\n", gone, S.spawned, S.st)
		os.Exit(2)
	}
	RaceAcquire(unsafe.Pointer(&S.join))
	S.active = false
	S.abort = false
	S.cur = nil
	if after == nil {
		after = x.Judge
	}
	if after != nil {
		after(x, info)
	} else {
		DefaultJudge(sc, x, info)
	}
	return x, info
}

func waitExited() {
	raceOff()
	<-S.exited
	raceOn()
}

// DefaultJudge treats deadlock, panic, fatal errors, exits, livelock and leaked goroutines as violations.
func DefaultJudge(sc *Scenario, x *X, i *Info) {
	switch i.Status {
	case "done":
		if len(i.Leaked) > 0 && !sc.AllowLeak {
			x.Failf("leak:"+strings.Join(i.Leaked, ","), "goroutines never end: %s", strings.Join(i.Leaked, ", "))
		}
	case "deadlock":
		x.Failf("deadlock:"+strings.Join(i.Blocked, ","), "deadlock: %s", strings.Join(i.Blocked, ", "))
	case "panic":
		x.Failf("panic:"+i.Site, "panic: %s at %s", i.Msg, i.Site)
	case "internal":
	default:
		x.Failf(i.Status+":"+i.Msg+":"+i.Site, "%s: %s at %s", i.Status, i.Msg, i.Site)
	}
}

func waitDesc(t *thread) string { return t.op.String() }

func failSite() string {
	if S.failN == 0 {
		return ""
	}
	fr := runtime.CallersFrames(S.failPCs[:S.failN])
	first := ""
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "Aize-Public/forego/") {
			return shortFunc(f.Function)
		}
		if first == "" && f.Function != "" && !strings.HasPrefix(f.Function, "verif.local/mc/mcrt") && !strings.HasPrefix(f.Function, "runtime.") {
			first = shortFunc(f.Function)
		}
		if !more {
			return first
		}
	}
}

func shortFunc(s string) string {
	s = strings.TrimPrefix(s, "github.com/Aize-Public/forego/")
	s = strings.ReplaceAll(s, "[...]", "")
	return s
}

// Explore enumerates every schedule with at most bound preemptions that extends prefix.
// With frontier>0 only the first frontier choices are branched on and the reached prefixes are returned.
func Explore(sc *Scenario, bound int, prefix []int16, frontier int, maxExecs int64, deadline time.Time) *Result {
	r := &Result{Scenario: sc.Name, Bound: bound, Outcomes: map[string]int64{}}
	for i, c := range prefix {
		S.path[i] = choice{-1, c}
	}
	replay := len(prefix)
	fixed := len(prefix)
	first := true
	seen := map[string]bool{}
	for {
		x, info := runPrefix(sc, bound, replay, first)
		first = false
		r.Execs++
		r.Steps += S.steps
		if S.depth > r.MaxDepth {
			r.MaxDepth = S.depth
		}
		if int(S.n) > r.MaxThreads {
			r.MaxThreads = int(S.n)
		}
		if info.Status == "internal" {
			r.Internal = info.Msg
			return r
		}
		depth := S.depth
		r.Nodes += int64(depth-replay) + 1
		races := raceCheck(sc, x)
		out := info.Status
		if len(x.out) > 0 {
			out += " " + strings.Join(x.out, " ")
		}
		if len(r.Outcomes) < 2000 || r.Outcomes[out] > 0 {
			r.Outcomes[out]++
		}
		saved := 0
		for _, f := range x.fails {
			if seen[f.key] {
				continue
			}
			seen[f.key] = true
			v := Viol{Key: f.key, Msg: f.msg}
			for i := 0; i < depth; i++ {
				v.Schedule = append(v.Schedule, S.path[i].chosen)
			}
			if len(r.Viol) < 50 {
				r.Viol = append(r.Viol, v)
				saved++
			}
		}
		if saved > 0 {
			// replay with tracing: shows the schedule and that it is deterministic
			keys := map[string]bool{}
			for _, f := range x.fails {
				keys[f.key] = true
			}
			x2, info2 := runOnce(sc, bound, depth, true)
			raceCheck(sc, x2)
			r.Replayed++
			if S.depth != depth || info2.Status != info.Status {
				r.Internal = fmt.Sprintf("violating execution did not replay: depth %d/%d status %s/%s %s", depth, S.depth, info.Status, info2.Status, info2.Msg)
				return r
			}
			for _, f := range x2.fails {
				delete(keys, f.key)
			}
			for k := range keys {
				if !strings.HasPrefix(k, "race:") || races == 0 {
					r.Internal = "violation " + k + " did not show again on replay"
					return r
				}
			}
			tr := traceText()
			for i := len(r.Viol) - saved; i < len(r.Viol); i++ {
				r.Viol[i].Trace = tr
			}
			if len(r.Viol) >= 20 {
				return r
			}
		} else if r.Execs%997 == 500 || r.Execs == 1 && fixed == 0 {
			// determinism audit: the same choices must give the same execution
			x2, info2 := runOnce(sc, bound, depth, false)
			raceCheck(sc, &X{})
			r.Replayed++
			out2 := info2.Status
			if len(x2.out) > 0 {
				out2 += " " + strings.Join(x2.out, " ")
			}
			if S.depth != depth || out2 != out {
				r.Internal = fmt.Sprintf("replay diverged: %q vs %q (depth %d vs %d) %s", out, out2, depth, S.depth, info2.Msg)
				return r
			}
		}
		limit := depth
		if frontier > 0 {
			if limit > frontier {
				limit = frontier
			}
			p := make([]int16, limit)
			for i := range p {
				p[i] = S.path[i].chosen
			}
			r.Prefixes = append(r.Prefixes, p)
		}
		// next
		i := limit - 1
		for ; i >= fixed; i-- {
			if S.path[i].chosen+1 < S.path[i].n {
				break
			}
		}
		if i < fixed {
			r.Complete = true
			return r
		}
		S.path[i].chosen++
		replay = i + 1
		if maxExecs > 0 && r.Execs >= maxExecs {
			if frontier == 0 {
				r.Rest = append(r.Rest, pathTo(replay))
				for j := i; j >= fixed; j-- {
					for c := S.path[j].chosen + 1; c < S.path[j].n; c++ {
						p := pathTo(j + 1)
						p[j] = c
						r.Rest = append(r.Rest, p)
					}
				}
			}
			return r
		}
		if r.Execs&15 == 0 && time.Now().After(deadline) {
			r.Stopped = true
			return r
		}
	}
}

func pathTo(n int) []int16 {
	p := make([]int16, n)
	for i := range p {
		p[i] = S.path[i].chosen
	}
	return p
}

func runPrefix(sc *Scenario, bound, replay int, first bool) (*X, *Info) {
	S.acceptN = first // the arity of the prefix's choices is learnt on the first run
	x, i := runOnce(sc, bound, replay, false)
	S.acceptN = false
	return x, i
}

// Replay runs one given schedule with tracing.
func Replay(sc *Scenario, bound int, sched []int16) (*Result, []string) {
	for i, c := range sched {
		S.path[i] = choice{-1, c}
	}
	S.acceptN = true
	x, info := runOnce(sc, bound, len(sched), true)
	S.acceptN = false
	raceCheck(sc, x)
	r := &Result{Scenario: sc.Name, Bound: bound, Execs: 1, Steps: S.steps, Outcomes: map[string]int64{info.Status + " " + strings.Join(x.out, " "): 1}}
	for _, f := range x.fails {
		r.Viol = append(r.Viol, Viol{Key: f.key, Msg: f.msg})
	}
	return r, traceText()
}

var lastRaces int

func raceCheck(sc *Scenario, x *X) int {
	n := raceErrors()
	d := n - lastRaces
	lastRaces = n
	if d > 0 {
		text := ""
		if RaceLog != nil {
			text = RaceLog()
		}
		if sc.NoRace {
			return d
		}
		keys := raceKeys(text)
		if len(keys) == 0 {
			keys = []string{"race:?"}
		}
		for _, k := range keys {
			x.Failf(k, "data race: %s", strings.TrimPrefix(k, "race:"))
		}
	}
	return d
}

// raceKeys names each report by the pair of innermost functions outside the runtime.
func raceKeys(text string) []string {
	var out []string
	seen := map[string]bool{}
	for _, rep := range strings.Split(text, "WARNING: DATA RACE") {
		var ends []string
		lines := strings.Split(rep, "\n")
		for i := 0; i < len(lines); i++ {
			l := lines[i]
			if strings.Contains(l, " at 0x") && (strings.HasPrefix(l, "Read") || strings.HasPrefix(l, "Write") || strings.HasPrefix(l, "Previous") || strings.HasPrefix(l, "Atomic")) {
				name := "?"
				for j := i + 1; j < len(lines) && strings.HasPrefix(lines[j], "  "); j++ {
					f := strings.TrimSpace(lines[j])
					if strings.HasPrefix(f, "/") || !strings.HasSuffix(f, ")") {
						continue
					}
					f = f[:strings.LastIndex(f, "(")]
					if strings.HasPrefix(f, "runtime.") || strings.HasPrefix(f, "verif.local/mc/mcrt") {
						continue
					}
					name = shortFunc(f)
					if strings.Contains(f, "forego/") {
						break
					}
				}
				ends = append(ends, name)
			}
		}
		if len(ends) >= 2 {
			sort.Strings(ends[:2])
			k := "race:" + ends[0] + " / " + ends[1]
			if !seen[k] {
				seen[k] = true
				out = append(out, k)
			}
		}
	}
	return out
}

func traceText() []string {
	ids := map[unsafe.Pointer]int{}
	var out []string
	for i := 0; i < S.ntrace; i++ {
		e := S.trace[i]
		if e.thread == -1 {
			out = append(out, fmt.Sprintf("timer fires (virtual time %v)", time.Duration(e.vnow)))
			continue
		}
		o := ""
		if e.obj != nil {
			if _, ok := ids[e.obj]; !ok {
				ids[e.obj] = len(ids) + 1
			}
			o = fmt.Sprintf(" #%d", ids[e.obj])
		}
		at := ""
		if e.pc != 0 {
			if f := runtime.FuncForPC(e.pc - 1); f != nil {
				_, line := f.FileLine(e.pc - 1)
				at = fmt.Sprintf("  %s:%d", shortFunc(f.Name()), line)
			}
		}
		out = append(out, fmt.Sprintf("g%d %s%s%s", e.thread, e.op, o, at))
	}
	if len(out) > 400 {
		out = append(out[:400], fmt.Sprintf("... %d more steps", len(out)-400))
	}
	return out
}

// Progress is a counter that moves while an execution advances.
func Progress() int64 { return S.curSteps }

// Stacks dumps all goroutines.
func Stacks() string {
	b := make([]byte, 1<<20)
	return string(bytes.TrimSpace(b[:runtime.Stack(b, true)]))
}
