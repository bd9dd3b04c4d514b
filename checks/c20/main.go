// C20: holds, begins and signals under every schedule and every plan.
package main

import (
	"fmt"
	"log/slog"
	"os"
	"sync"
	"syscall"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
	"github.com/Aize-Public/forego/shutdown"

	"verif.local/mc/lib/mc"
	"verif.local/mc/mcrt"
	"verif.local/mc/mcrt/lin"
)

func mute() { log.SetDefaultLoggerLevel(slog.LevelError + 100) }

func closed[T any](ch <-chan T) bool {
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

type mark struct {
	kind rune // + a hold is surely there, - it may be gone, d drained asked for, D drained seen, b begin called, S start seen
	who  int
}

// events of all goroutines, in the order they happened
type events struct{ lin.Book }

func (e *events) add(kind rune, who int) { e.Add(mark{kind, who}) }

func (e *events) judge(x *mcrt.X) {
	held, begun := 0, false
	min := map[int]int{}
	line := ""
	for _, v := range e.All() {
		m := v.(mark)
		line += fmt.Sprintf(" %c%d", m.kind, m.who)
		switch m.kind {
		case '+':
			held++
		case '-':
			held--
		case 'd':
			min[m.who] = held
		case 'D':
			if min[m.who] > 0 {
				x.Failf("early-drain", "drained although there was always a hold:%s", line)
			}
			delete(min, m.who)
		case 'b':
			begun = true
		case 'S':
			if !begun {
				x.Failf("early-start", "started although nobody began:%s", line)
			}
		}
		for k, n := range min {
			if held < n {
				min[k] = held
			}
		}
	}
}

// holders come and go, each with a plan, while others wait for the drained signal
func holders(name string, progs []int, waiters, begins, quick, bound int) *mcrt.Scenario {
	return &mcrt.Scenario{Name: name, QuickBound: quick, MaxBound: bound, KeepTimers: true, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		mute()
		var ev events
		var wg sync.WaitGroup
		plans := make([][]int, len(progs))
		kinds := 3
		if begins > 0 {
			kinds = 4
		}
		for i, n := range progs {
			for k := 0; k < n; k++ {
				plans[i] = append(plans[i], mcrt.Choose(kinds))
			}
		}
		for i := range progs {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, how := range plans[i] {
					var r shutdown.ReleaseFn
					if how == 3 {
						r = shutdown.HoldAndWait()
						ev.add('+', i)
						ev.add('S', i)
					} else {
						r = shutdown.Hold()
						ev.add('+', i)
					}
					if how == 2 { // nested
						r2 := shutdown.Hold()
						ev.add('+', i)
						ev.add('-', i)
						r2.Release()
					}
					ev.add('-', i)
					r.Release()
					if how == 1 { // a deferred release after an explicit one
						r()
					}
				}
			}()
		}
		for i := 0; i < waiters; i++ {
			i := 10 + i
			wg.Add(1)
			go func() {
				defer wg.Done()
				ev.add('d', i)
				<-shutdown.Done()
				ev.add('D', i)
			}()
		}
		for i := 0; i < begins; i++ {
			i := 20 + i
			wg.Add(1)
			go func() {
				defer wg.Done()
				ev.add('b', i)
				shutdown.Begin()
				if !closed(shutdown.Started()) {
					x.Failf("not-started", "Begin has returned and the start is not signalled")
				}
			}()
		}
		wg.Wait()
		ev.judge(x)
		if begins == 0 && closed(shutdown.Started()) {
			x.Failf("early-start", "started although nobody began")
		}
		r := shutdown.Hold()
		d := shutdown.Done()
		time.Sleep(time.Second)
		if closed(d) {
			x.Failf("hold-lost", "drained with a hold in place after plans %v", plans)
		}
		r.Release()
		<-d
		<-shutdown.Done()
		x.Outf("%v", plans)
		return nil
	}}
}

// starts: everybody waiting for the start is told, repeated begins change nothing, the notice comes five seconds later
func starts(name string, begins, waiters, quick, bound int) *mcrt.Scenario {
	return &mcrt.Scenario{Name: name, QuickBound: quick, MaxBound: bound, KeepTimers: true, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		mute()
		var ev events
		var wg sync.WaitGroup
		for i := 0; i < begins; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				ev.add('b', i)
				shutdown.Begin()
			}()
		}
		for i := 0; i < waiters; i++ {
			i := 10 + i
			wg.Add(1)
			go func() {
				defer wg.Done()
				switch i % 3 {
				case 0:
					<-shutdown.Started()
				case 1:
					shutdown.HoldAndWait().Release()
				case 2:
					<-shutdown.Started5Sec()
				}
				ev.add('S', i)
			}()
		}
		wg.Wait()
		shutdown.Begin()
		ev.judge(x)
		<-shutdown.Done()
		<-shutdown.Started5Sec()
		if !closed(shutdown.Started()) {
			x.Failf("not-started", "five seconds after a start which is not signalled")
		}
		return nil
	}}
}

// many: many holds released in every of several orders, some twice, some taken again, looked at after each step
func many() *mcrt.Scenario {
	sizes := []int{1, 2, 3, 9, 17, 33, 64, 65, 70, 130, 257}
	return &mcrt.Scenario{Name: "many holds", MaxBound: -1, KeepTimers: true, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		mute()
		n := sizes[mcrt.Choose(len(sizes))]
		order, twice, again := mcrt.Choose(4), mcrt.Choose(3), mcrt.Choose(4)
		begun := mcrt.Choose(2) == 1
		what := fmt.Sprintf("%d holds, order %d, twice %d, again %d, begun %v", n, order, twice, again, begun)
		if begun {
			shutdown.Begin()
		}
		held := 0
		var chans []<-chan struct{} // of the current period
		looks := 0
		look := func(step string) {
			if looks++; n > 70 && looks%3 != 0 && held > 2 && held != 64 { // as far as the step limit goes
				return
			}
			d := shutdown.Done()
			if closed(d) != (held == 0) {
				x.Failf("many", "%s: %s there are %d holds, drained: %v", what, step, held, closed(d))
			}
			for _, c := range chans {
				if closed(c) != (held == 0) {
					x.Failf("many", "%s: %s there are %d holds, drained as seen by an earlier waiter: %v", what, step, held, closed(c))
				}
			}
			if held == 0 {
				chans = nil
			} else if len(chans) < 3 {
				chans = append(chans, d)
			}
		}
		take := func() shutdown.ReleaseFn {
			r := shutdown.Hold()
			if begun && held%2 == 0 {
				r2 := shutdown.HoldAndWait()
				r()
				r = r2
			}
			held++
			look("after a hold")
			return r
		}
		for round := 0; round < 2; round++ {
			var rs []shutdown.ReleaseFn
			for i := 0; i < n; i++ {
				rs = append(rs, take())
			}
			extra := 0
			for i := 0; i < n; i++ {
				j := i
				switch order {
				case 1:
					j = n - 1 - i
				case 2: // evens then odds
					if j = 2 * i; j >= n {
						j = 2*(i-(n+1)/2) + 1
					}
				case 3: // from both ends
					if j = i / 2; i%2 == 1 {
						j = n - 1 - i/2
					}
				}
				rs[j].Release()
				held--
				look(fmt.Sprintf("after %d releases", i+1))
				switch twice {
				case 1:
					rs[j]()
					look("after a second release of one")
				case 2:
					for k := 0; k <= i && i%16 < 2; k += 7 {
						if order < 2 {
							if order == 0 {
								rs[k]()
							} else {
								rs[n-1-k]()
							}
						}
					}
					look("after more releases of the released")
				}
				if again > 0 && i%(again*3) == 0 && extra < n {
					extra++
					r := take()
					r()
					held--
					look("after another came and went")
				}
			}
		}
		if closed(shutdown.Started()) != begun {
			x.Failf("many", "%s: started is %v", what, !begun)
		}
		return nil
	}}
}

// timing: time passes only when everybody waits
func timing(name string, offs []time.Duration) *mcrt.Scenario {
	return &mcrt.Scenario{Name: name, MaxBound: -1, KeepTimers: true, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		mute()
		t0 := mcrt.VNow()
		now := func() time.Duration { return time.Duration(mcrt.VNow() - t0) }
		near := func(a, b time.Duration) bool { return a-b < time.Millisecond && b-a < time.Millisecond }
		var wg sync.WaitGroup
		what := "begins at"
		var at []time.Duration
		for i := 0; i < 2; i++ {
			d := offs[mcrt.Choose(len(offs))]
			what += fmt.Sprint(" +", d)
			at = append(at, d)
		}
		first := at[0]
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, d := range at {
				time.Sleep(d)
				shutdown.Begin()
			}
		}()
		// a hold taken before the start, one that waits for it, one after it
		holdFor := offs[mcrt.Choose(len(offs))]
		what += fmt.Sprintf(", first hold until %v", holdFor)
		wg.Add(3)
		drained := 0 * time.Second
		if holdFor > drained {
			drained = holdFor
		}
		go func() {
			defer wg.Done()
			r := shutdown.Hold()
			time.Sleep(holdFor)
			r.Release()
		}()
		go func() {
			defer wg.Done()
			r := shutdown.HoldAndWait()
			if !near(now(), first) {
				x.Failf("start-time", "%s: HoldAndWait returned at %v", what, now())
			}
			time.Sleep(2 * time.Second)
			r.Release()
		}()
		if first+2*time.Second > drained {
			drained = first + 2*time.Second
		}
		go func() {
			defer wg.Done()
			<-shutdown.Started()
			if !near(now(), first) {
				x.Failf("start-time", "%s: start signalled at %v", what, now())
			}
			<-shutdown.Started5Sec()
			if !near(now(), first+5*time.Second) {
				x.Failf("notice-time", "%s: five-second notice at %v", what, now())
			}
			<-shutdown.Started5Sec()
		}()
		time.Sleep(time.Microsecond)
		<-shutdown.Done()
		if !near(now(), drained) {
			x.Failf("drain-time", "%s: drained at %v, want %v", what, now(), drained)
		}
		wg.Wait()
		<-shutdown.Done()
		x.Outf("%v", drained)
		return nil
	}}
}

// signals, one after the other, with workers that let go at some point
func signals(name string, max int, gaps []time.Duration, bound, quick int) *mcrt.Scenario {
	sigs := []os.Signal{syscall.SIGINT, syscall.SIGTERM, syscall.SIGQUIT}
	return &mcrt.Scenario{Name: name, MaxBound: bound, QuickBound: quick, KeepTimers: true, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		mute()
		c, cf := ctx.Background()
		n := mcrt.Choose(max + 1)
		gap := gaps[mcrt.Choose(len(gaps))]
		// when the worker lets go: 0 before any signal, 1 on the start, 2 on the cancelled context, 3 never, 4 at the notice
		lets := mcrt.Choose(5)
		what := fmt.Sprintf("%d signals every %v, hold of kind %d", n, gap, lets)
		var returned, released, raised lin.Book
		h := shutdown.Hold()
		go func() {
			switch lets {
			case 0:
				time.Sleep(time.Second)
			case 1:
				<-shutdown.Started()
			case 2:
				<-c.Done()
			case 3:
				select {}
			case 4:
				<-shutdown.Started5Sec()
			}
			released.Tick()
			h.Release()
		}()
		go func() {
			time.Sleep(2 * time.Second) // the waiter is registered by now
			for i := 0; i < n; i++ {
				s := sigs[i%3]
				if gap > 0 {
					s = sigs[mcrt.Choose(3)]
				}
				if len(returned.All()) > 0 {
					return
				}
				raised.Add(s)
				if !mcrt.Raise(s) {
					x.Failf("signal-not-caught", "%s: nobody is registered for %v", what, s)
				}
				if gap == 0 {
					continue
				}
				mcrt.Raise(syscall.SIGHUP)
				time.Sleep(gap)
				if len(returned.All()) > 0 {
					return
				}
				if !closed(shutdown.Started()) {
					x.Failf("signal-start", "%s: not started after %d signals", what, i+1)
				}
				if got := c.Err() != nil; got != (i >= 1) {
					x.Failf("signal-cancel", "%s: context error %v after %d signals", what, c.Err(), i+1)
				}
				if i >= 2 {
					x.Failf("signal-exit", "%s: still there after %d signals", what, i+1)
				}
			}
		}()
		x.Judge = func(x *mcrt.X, i *mcrt.Info) {
			r := len(raised.All())
			switch i.Status {
			case "exit":
				if r < 3 {
					x.Failf("exit-early", "%s: the process exits after %d signals", what, r)
				}
				if i.Code == 0 {
					x.Failf("exit-code", "%s: forced exit reports success", what)
				}
			case "deadlock":
				if r >= 3 {
					x.Failf("exit-missing", "%s: the third signal does not exit", what)
				} else if released.Tick() > 1 {
					x.Failf("stuck", "%s: no hold left and WaitForSignal does not return", what)
				}
			default:
				mcrt.DefaultJudge(&mcrt.Scenario{KeepTimers: true}, x, i)
			}
			x.Outf("%s %d", i.Status, r)
		}
		shutdown.WaitForSignal(c, cf)
		if released.Tick() == 1 {
			x.Failf("return-early", "%s: WaitForSignal returns while the hold is in place", what)
		}
		returned.Add(0)
		if len(raised.All()) == 0 && closed(shutdown.Started()) {
			x.Failf("early-start", "%s: started without a signal", what)
		}
		if e := c.Err(); e != nil && len(raised.All()) < 2 {
			x.Failf("early-cancel", "%s: context cancelled after %d signals", what, len(raised.All()))
		}
		x.Outf("returned %d", len(raised.All()))
		return func(x *mcrt.X, i *mcrt.Info) {
			if lets != 2 && lets != 4 { // others are let go
				mcrt.DefaultJudge(&mcrt.Scenario{AllowLeak: true}, x, i)
			}
		}
	}}
}

func main() {
	mc.Main("C20", mc.Options{QuickBound: 2, ThoroughBound: 3,
		Rule:   "every schedule up to the preemption bound of holders with every plan of holds and releases, waiters for the drained signal and beginners, with every drained signal checked against the holds surely in place; up to 257 holds released in four orders, once or more;; every combination of begin times and hold lengths in virtual time; up to four termination signals of every kind at every distance against five kinds of worker",
		Assume: []string{"a hold counts from the return of the call that takes it", "signals are delivered through the os/signal registration, a full channel dropping them"},
	}, func() []*mcrt.Scenario {
		s := []*mcrt.Scenario{
			holders("one holder, one waiter", []int{2}, 1, 0, 3, 4),
			holders("two holders, one waiter", []int{1, 1}, 1, 0, 2, 3),
			holders("two holders, two waiters", []int{1, 1}, 2, 0, 1, 2),
			holders("two long holders, one waiter", []int{2, 1}, 1, 0, 1, 2),
			holders("two holders, one begin", []int{1, 1}, 1, 1, 1, 1),
			holders("one holder, two begins", []int{1}, 1, 2, 1, 2),
			many(),
			starts("two begins, two waiters", 2, 2, 1, 2),
			starts("one begin, three waiters", 1, 3, 1, 1),
			starts("three begins, one waiter", 3, 1, 1, 2),
			timing("times", []time.Duration{0, time.Second, 3 * time.Second, 6 * time.Second}),
			signals("signals far apart", 4, []time.Duration{time.Second, 4 * time.Second, 10 * time.Second}, -1, 0),
			signals("signals at once", 3, []time.Duration{0}, 2, 1),
		}
		return s
	})
}
