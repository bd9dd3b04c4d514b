// C15: the locks under every schedule, with every arrival, hold and patience.
package main

import (
	"fmt"
	"log/slog"
	gosync "sync"
	"time"

	"github.com/Aize-Public/forego/ctx/log"
	"github.com/Aize-Public/forego/utils/sync"

	"verif.local/mc/lib/mc"
	"verif.local/mc/mcrt"
	"verif.local/mc/mcrt/lin"
)

func mute() { log.SetDefaultLoggerLevel(slog.LevelError + 100) }

// room is a critical section: inside is plain data, so that a lock that does not order its holders is a data race too.
type room struct {
	x      *mcrt.X
	n      lin.Book
	inside int
	total  int
}

func (r *room) visit(hold time.Duration) {
	r.inside++
	if r.inside != 1 {
		r.x.Failf("two-inside", "%d holders at once", r.inside)
	}
	r.total++
	if hold > 0 {
		time.Sleep(hold)
	} else {
		mcrt.Point(mcrt.OpUser, nil)
	}
	r.inside--
}

type locker interface {
	Lock()
	Unlock()
}

// exclusion: every goroutine runs steps, each chosen from how: 0 Lock, 1 a patient TryLock, 2 an impatient one, 3 TryLock(0), 4 TryLock(-1)
func exclusion(name string, how []int, progs []int, quick, bound int) *mcrt.Scenario {
	return &mcrt.Scenario{Name: name, QuickBound: quick, MaxBound: bound, KeepTimers: true, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		mute()
		var m sync.Mutex
		r := &room{x: x}
		var wg gosync.WaitGroup
		var got lin.Book
		plans := make([][]int, len(progs))
		for t, n := range progs {
			for i := 0; i < n; i++ {
				plans[t] = append(plans[t], how[mcrt.Choose(len(how))])
			}
		}
		for t := range progs {
			t := t
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, o := range plans[t] {
					switch o {
					case 0:
						m.Lock()
					default:
						d := []time.Duration{0, time.Hour, time.Millisecond, 0, -1}[o]
						if !m.TryLock(d) {
							continue
						}
					}
					got.Tick()
					r.visit(0)
					m.Unlock()
				}
			}()
		}
		wg.Wait()
		n := got.Tick() - 1
		m.Lock()
		if r.total != n {
			x.Failf("lost", "%d holders left %d marks", n, r.total)
		}
		m.Unlock()
		if t0 := mcrt.VNow(); !m.TryLock(time.Hour) {
			if mcrt.VNow()-t0 < int64(time.Hour) { // or else an hour went by before anybody ran
				x.Failf("unavailable", "nobody holds the lock and an attempt with an hour's patience fails")
			}
		} else {
			m.Unlock()
		}
		x.Outf("%d held", n)
		return nil
	}}
}

const slack = int64(time.Microsecond)

// timing: a holder from 0 to hold, others come at their time; time passes only when everybody waits
func timing(name string, holds, comes, patience []time.Duration, waiters int) *mcrt.Scenario {
	return &mcrt.Scenario{Name: name, MaxBound: -1, KeepTimers: true, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		mute()
		var m sync.Mutex
		hold := holds[mcrt.Choose(len(holds))]
		m.Lock()
		start := mcrt.VNow()
		now := func() time.Duration { return time.Duration(mcrt.VNow() - start) }
		near := func(a, b time.Duration) bool { return int64(a-b) < slack && int64(b-a) < slack }
		r := &room{x: x}
		type span struct{ from, to time.Duration }
		var spans lin.Book
		var wg gosync.WaitGroup
		what := fmt.Sprintf("held until %v", hold)
		for i := 0; i < waiters; i++ {
			at, d := comes[mcrt.Choose(len(comes))], patience[mcrt.Choose(len(patience))]
			what += fmt.Sprintf(", at %v with patience %v", at, d)
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(at)
				ok := m.TryLock(d)
				t := now()
				if d < 0 {
					d = 0
				}
				switch {
				case ok:
					if t > at+d+time.Microsecond {
						x.Failf("late", "%s: success at %v", what, t)
					}
					if t+time.Microsecond < hold {
						x.Failf("stolen", "%s: success at %v", what, t)
					}
					from := now()
					r.visit(300 * time.Millisecond)
					spans.Add(span{from, now()})
					m.Unlock()
				case !near(t, at+d):
					x.Failf("deadline", "%s: gave up at %v", what, t)
				case waiters == 1 && (hold < at+d && d > 0) && !near(hold, at+d):
					x.Failf("refused", "%s: the lock was free, the attempt failed", what)
				}
				x.Outf("%v", ok)
			}()
		}
		wg.Add(1)
		go func() { // an unbounded waiter must get in, right when the lock is free
			defer wg.Done()
			time.Sleep(100 * time.Millisecond)
			m.Lock()
			t := now()
			free := hold
			if free < 100*time.Millisecond {
				free = 100 * time.Millisecond
			}
			for changed := true; changed; {
				changed = false
				for _, s := range spans.All() {
					s := s.(span)
					if s.from <= free+time.Microsecond && s.to > free {
						free, changed = s.to, true
					}
				}
			}
			if !near(t, free) {
				x.Failf("waiter", "%s: a waiting Lock got it at %v, free at %v", what, t, free)
			}
			m.Unlock()
		}()
		time.Sleep(hold - now())
		m.Unlock()
		wg.Wait()
		return nil
	}}
}

func metered(n int, quick, bound int) *mcrt.Scenario {
	return &mcrt.Scenario{Name: fmt.Sprintf("metered lock, %d holders", n), QuickBound: quick, MaxBound: bound, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		mute()
		var m sync.MetricsMutex
		r := &room{x: x}
		var wg gosync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < 2; j++ {
					m.Lock()
					r.visit(0)
					m.Unlock()
				}
			}()
		}
		wg.Wait()
		m.Lock()
		if r.total != 2*n {
			x.Failf("lost", "%d marks of %d", r.total, 2*n)
		}
		m.Unlock()
		return nil
	}}
}

func scenarios() []*mcrt.Scenario {
	ms := time.Millisecond
	all := []int{0, 1, 2, 3, 4}
	out := []*mcrt.Scenario{
		exclusion("two goroutines", all, []int{1, 1}, 2, 3),
		exclusion("two goroutines, two steps", []int{0, 1, 2}, []int{2, 1}, 1, 2),
		exclusion("three goroutines", []int{0, 1, 2}, []int{1, 1, 1}, 1, 2),
		timing("one attempt", []time.Duration{0, 500 * ms, 1500 * ms, 5000 * ms}, []time.Duration{0, 200 * ms, 1000 * ms, 2000 * ms}, []time.Duration{-1, 0, 700 * ms, 1600 * ms, time.Hour}, 1),
		timing("two attempts", []time.Duration{500 * ms, 1500 * ms}, []time.Duration{0, 200 * ms, 1000 * ms}, []time.Duration{0, 700 * ms, 1600 * ms, time.Hour}, 2),
		metered(2, 4, 8), metered(3, 2, 3),
	}
	if mc.Thorough() {
		out = append(out, exclusion("three goroutines, any", all, []int{1, 1, 1}, 1, 2),
			timing("three attempts", []time.Duration{500 * ms, 1500 * ms}, []time.Duration{0, 200 * ms}, []time.Duration{0, 700 * ms, 1600 * ms}, 3))
	}
	return out
}

func main() {
	mc.Main("C15", mc.Options{
		QuickBound: 3, ThoroughBound: 6,
		Rule:   "every mixture of Lock and bounded attempts by two or three goroutines under every schedule up to the preemption bound (timers may fire at any point); every arrival, hold and patience from the lists given for the timing",
		Assume: []string{"sync.Mutex itself excludes"},
	}, scenarios)
}
