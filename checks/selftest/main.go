// selftest runs the scheduler on toy programs whose set of behaviours is known: it must find exactly those.
package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif.local/mc/mcrt"
	_ "verif.local/mc/mcrt/mtime"
)

type toy struct {
	name  string
	bound int
	want  string // distinct outcomes, sorted, joined by "; " ("*": any)
	viol  string // substring of a violation key; "": none
	body  func(x *mcrt.X)
}

var toys = []toy{
	{"lost update", 2, "done 1; done 2", "", func(x *mcrt.X) {
		var n int64
		var wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); v := atomic.LoadInt64(&n); atomic.StoreInt64(&n, v+1) }()
		}
		wg.Wait()
		x.Outf("%d", n)
	}},
	{"no lost update without preemption", 0, "done 2", "", func(x *mcrt.X) {
		var n int64
		var wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); v := atomic.LoadInt64(&n); atomic.StoreInt64(&n, v+1) }()
		}
		wg.Wait()
		x.Outf("%d", n)
	}},
	{"atomic add", 3, "done 3", "", func(x *mcrt.X) {
		var n atomic.Int64
		var wg sync.WaitGroup
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); n.Add(1) }()
		}
		wg.Wait()
		x.Outf("%d", n.Load())
	}},
	{"data race", 1, "*", "race:", func(x *mcrt.X) {
		n := 0
		var wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); n++ }()
		}
		wg.Wait()
	}},
	{"race hidden by lock order", 2, "*", "race:", func(x *mcrt.X) {
		// the racy accesses are ordered through mu in most schedules
		n := 0
		var mu sync.Mutex
		var wg sync.WaitGroup
		wg.Add(2)
		go func() { defer wg.Done(); n++; mu.Lock(); mu.Unlock() }()
		go func() { defer wg.Done(); mu.Lock(); mu.Unlock(); n++ }()
		wg.Wait()
	}},
	{"mutex", 3, "done 2", "", func(x *mcrt.X) {
		n := 0
		var mu sync.Mutex
		var wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); mu.Lock(); defer mu.Unlock(); n++ }()
		}
		wg.Wait()
		x.Outf("%d", n)
	}},
	{"lock order deadlock", 1, "*", "deadlock:", func(x *mcrt.X) {
		var a, b sync.Mutex
		var wg sync.WaitGroup
		wg.Add(2)
		go func() { defer wg.Done(); a.Lock(); b.Lock(); b.Unlock(); a.Unlock() }()
		go func() { defer wg.Done(); b.Lock(); a.Lock(); a.Unlock(); b.Unlock() }()
		wg.Wait()
	}},
	{"no deadlock in order", 3, "done", "", func(x *mcrt.X) {
		var a, b sync.Mutex
		var wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); a.Lock(); b.Lock(); b.Unlock(); a.Unlock() }()
		}
		wg.Wait()
	}},
	{"leak", 0, "*", "leak:", func(x *mcrt.X) { c := make(chan int); go func() { c <- 1 }() }},
	{"select both", 0, "done 1; done 2", "", func(x *mcrt.X) {
		a, b := make(chan int, 1), make(chan int, 1)
		a <- 1
		b <- 2
		select {
		case v := <-a:
			x.Outf("%d", v)
		case v := <-b:
			x.Outf("%d", v)
		}
	}},
	{"select default", 1, "done false; done true", "", func(x *mcrt.X) {
		a := make(chan int)
		e := make(chan int)
		defer close(e)
		go func() {
			select {
			case a <- 1:
			case <-e:
			}
		}()
		select {
		case <-a:
			x.Outf("true")
		default:
			x.Outf("false")
		}
	}},
	{"select send and receive on one channel", 2, "done 1 got", "", func(x *mcrt.X) {
		a := make(chan int)
		var wg sync.WaitGroup
		var n atomic.Int32
		wg.Add(2)
		for i := 0; i < 2; i++ {
			go func() {
				defer wg.Done()
				select {
				case a <- 1:
				case v := <-a:
					n.Add(int32(v))
				}
			}()
		}
		wg.Wait()
		x.Outf("%d got", n.Load())
	}},
	{"unbuffered fifo", 2, "done [1 2 3]", "", func(x *mcrt.X) {
		a := make(chan int)
		go func() {
			for i := 1; i <= 3; i++ {
				a <- i
			}
			close(a)
		}()
		var got []int
		for v := range a {
			got = append(got, v)
		}
		x.Outf("%v", got)
	}},
	{"send on closed", 1, "*", "panic:", func(x *mcrt.X) {
		a := make(chan int)
		go func() { <-a }()
		go close(a)
		a <- 1
	}},
	{"nil channel", 0, "*", "deadlock:", func(x *mcrt.X) { var a chan int; <-a }},
	{"context cancel", 0, "done canceled", "", func(x *mcrt.X) {
		c, cf := context.WithCancel(context.Background())
		d, cf2 := context.WithTimeout(c, time.Hour)
		defer cf2()
		go cf()
		<-d.Done()
		if errors.Is(d.Err(), context.Canceled) {
			x.Outf("canceled")
		}
	}},
	{"context timeout", 0, "done deadline 1", "", func(x *mcrt.X) {
		t := time.Now()
		d, cf2 := context.WithTimeout(context.Background(), time.Second)
		defer cf2()
		<-d.Done()
		if errors.Is(d.Err(), context.DeadlineExceeded) {
			x.Outf("deadline %d", time.Since(t)/time.Second)
		}
	}},
	{"timers order", 0, "done 1 2 3", "", func(x *mcrt.X) {
		ch := make(chan int, 3)
		time.AfterFunc(2*time.Second, func() { ch <- 2 })
		time.AfterFunc(1*time.Second, func() { ch <- 1 })
		time.AfterFunc(3*time.Second, func() { ch <- 3 })
		x.Outf("%d %d %d", <-ch, <-ch, <-ch)
	}},
	{"slow goroutine misses timeout", 1, "done fast; done late", "", func(x *mcrt.X) {
		ch := make(chan int, 1)
		go func() { ch <- 1 }()
		select {
		case <-ch:
			x.Outf("fast")
		case <-time.After(time.Second):
			x.Outf("late")
		}
	}},
	{"rwmutex", 2, "done", "", func(x *mcrt.X) {
		var mu sync.RWMutex
		n := 0
		var wg sync.WaitGroup
		wg.Add(3)
		go func() { defer wg.Done(); mu.Lock(); n++; mu.Unlock() }()
		for i := 0; i < 2; i++ {
			go func() { defer wg.Done(); mu.RLock(); _ = n; mu.RUnlock() }()
		}
		wg.Wait()
	}},
	{"rwmutex write under read lock", 2, "*", "race:", func(x *mcrt.X) {
		var mu sync.RWMutex
		n := 0
		var wg sync.WaitGroup
		wg.Add(2)
		for i := 0; i < 2; i++ {
			go func() { defer wg.Done(); mu.RLock(); n++; mu.RUnlock() }()
		}
		wg.Wait()
	}},
	{"cond lost wakeup", 1, "*", "deadlock:", func(x *mcrt.X) {
		var mu sync.Mutex
		c := sync.NewCond(&mu)
		go func() { c.Signal() }()
		mu.Lock()
		c.Wait()
		mu.Unlock()
	}},
	{"cond", 2, "done", "", func(x *mcrt.X) {
		var mu sync.Mutex
		c := sync.NewCond(&mu)
		ok := false
		go func() { mu.Lock(); ok = true; mu.Unlock(); c.Broadcast() }()
		mu.Lock()
		for !ok {
			c.Wait()
		}
		mu.Unlock()
	}},
	{"once", 2, "done 1", "", func(x *mcrt.X) {
		var o sync.Once
		n := 0
		var wg sync.WaitGroup
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); o.Do(func() { n++ }); _ = n }()
		}
		wg.Wait()
		x.Outf("%d", n)
	}},
	{"map range order", 0, "done ab; done ba", "", func(x *mcrt.X) {
		s := ""
		var m sync.Map
		m.Store("a", 1)
		m.Store("b", 1)
		_ = m
		a, b := make(chan int, 1), make(chan int, 1)
		close(a)
		close(b)
		for len(s) < 2 {
			select {
			case <-a:
				s += "a"
				a = nil
			case <-b:
				s += "b"
				b = nil
			}
		}
		x.Outf("%s", s)
	}},
	{"sync.Map", 2, "done 1; done 2", "", func(x *mcrt.X) {
		var m sync.Map
		var wg sync.WaitGroup
		for i := 1; i <= 2; i++ {
			i := i
			wg.Add(1)
			go func() { defer wg.Done(); m.LoadOrStore("k", i) }()
		}
		wg.Wait()
		v, _ := m.Load("k")
		x.Outf("%v", v)
	}},
	{"waitgroup negative", 0, "*", "panic:", func(x *mcrt.X) { var wg sync.WaitGroup; wg.Done() }},
	{"unlock of unlocked", 0, "*", "fatal:", func(x *mcrt.X) { var mu sync.Mutex; mu.Unlock() }},
	{"panic in goroutine", 0, "*", "panic:", func(x *mcrt.X) { go func() { panic("x") }(); time.Sleep(time.Second) }},
	{"exit", 0, "exit", "exit:", func(x *mcrt.X) { os.Exit(3) }},
	{"livelock", 0, "*", "steps:", func(x *mcrt.X) {
		var a atomic.Bool
		for !a.Load() {
		}
	}},
	{"ticker", 0, "done 3", "", func(x *mcrt.X) {
		tk := time.NewTicker(time.Second)
		t := time.Now()
		for i := 0; i < 3; i++ {
			<-tk.C
		}
		tk.Stop()
		x.Outf("%d", time.Since(t)/time.Second)
	}},
	{"peterson", 4, "done 2", "", func(x *mcrt.X) {
		var flag [2]atomic.Bool
		var turn atomic.Int32
		var n, in atomic.Int32
		var wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				flag[i].Store(true)
				turn.Store(int32(1 - i))
				for flag[1-i].Load() && turn.Load() == int32(1-i) {
					time.Sleep(time.Millisecond)
				}
				if in.Add(1) != 1 {
					x.Failf("exclusion", "both in")
				}
				n.Add(1)
				in.Add(-1)
				flag[i].Store(false)
			}()
		}
		wg.Wait()
		x.Outf("%d", n.Load())
	}},
	{"broken peterson", 2, "*", "exclusion", func(x *mcrt.X) {
		var flag [2]atomic.Bool
		var in atomic.Int32
		var wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				for flag[1-i].Load() {
					time.Sleep(time.Millisecond)
				}
				flag[i].Store(true)
				if in.Add(1) != 1 {
					x.Failf("exclusion", "both in")
				}
				in.Add(-1)
				flag[i].Store(false)
			}()
		}
		wg.Wait()
	}},
	{"unsafe publication", 1, "*", "race:", func(x *mcrt.X) {
		var p *int
		var ready atomic.Bool
		go func() { v := 7; p = &v; ready.Store(true) }()
		_ = ready.Load()
		if p != nil {
			x.Outf("%d", *p)
		}
	}},
	{"safe publication", 2, "done 0; done 7", "", func(x *mcrt.X) {
		v := 0
		var ready atomic.Bool
		go func() { v = 7; ready.Store(true) }()
		if ready.Load() {
			x.Outf("%d", v)
		} else {
			x.Outf("0")
		}
	}},
	{"channel hand-over orders", 2, "done 7", "", func(x *mcrt.X) {
		v := 0
		c := make(chan int)
		go func() { v = 7; <-c }()
		c <- 1
		x.Outf("%d", v)
	}},
	{"buffered channel does not order backwards", 2, "*", "race:", func(x *mcrt.X) {
		v := 0
		c := make(chan int, 1)
		d := make(chan int)
		go func() { v = 7; <-c; close(d) }()
		c <- 1
		_ = v
		<-d
	}},
}

func main() {
	bad := 0
	var total int64
	for i := range toys {
		t := &toys[i]
		sc := &mcrt.Scenario{Name: t.name, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) { t.body(x); return nil }, MaxSteps: 2000}
		r := mcrt.Explore(sc, t.bound, nil, 0, 0, time.Now().Add(time.Minute))
		var outs []string
		for o := range r.Outcomes {
			outs = append(outs, o)
		}
		sort.Strings(outs)
		got := strings.Join(outs, "; ")
		ok := r.Internal == "" && (t.want == "*" || got == t.want)
		if t.viol == "" {
			ok = ok && len(r.Viol) == 0 && r.Complete
		} else {
			f := false
			for _, v := range r.Viol {
				f = f || strings.Contains(v.Key, t.viol)
			}
			ok = ok && f
		}
		total += r.Execs
		if !ok {
			bad++
			fmt.Printf("FAIL %s: %d schedules, outcomes %q, complete %v internal %q\n", t.name, r.Execs, got, r.Complete, r.Internal)
			for _, v := range r.Viol {
				fmt.Println("   ", v.Key, v.Schedule)
				for _, l := range v.Trace {
					fmt.Println("       ", l)
				}
			}
		}
	}
	fmt.Printf("selftest: %d of %d toy programs as expected, %d schedules\n", len(toys)-bad, len(toys), total)
	if bad > 0 {
		os.Exit(1)
	}
}
