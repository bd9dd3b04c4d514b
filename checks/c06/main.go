// C06: every schedule of readers, writers, closers and cancellers over a node pipe.
package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sync"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"

	"verif.local/mc/lib/mc"
	"verif.local/mc/mcrt"
)

func num(i int) enc.Node { return enc.Digits(fmt.Sprint(i)) }

func val(x *mcrt.X, n enc.Node) int {
	d, ok := n.(enc.Digits)
	if !ok {
		x.Failf("foreign", "read something that was never written: %T %v", n, n)
		return -1
	}
	i := 0
	fmt.Sscan(string(d), &i)
	return i
}

// drain reads until end of file or an error.
func drain(x *mcrt.X, c ctx.C, p enc.Pipe, max int) (got []int, err error) {
	for i := 0; i <= max; i++ {
		n, err := p.Read(c)
		if err != nil {
			return got, err
		}
		got = append(got, val(x, n))
	}
	x.Failf("toomany", "more messages read than were written: %v", got)
	return got, nil
}

func eq(a, b []int) bool { return fmt.Sprint(a) == fmt.Sprint(b) }

func scenarios() []*mcrt.Scenario {
	var out []*mcrt.Scenario
	add := func(name string, body func(x *mcrt.X)) *mcrt.Scenario {
		s := &mcrt.Scenario{Name: name, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) { body(x); return nil }}
		out = append(out, s)
		return s
	}
	for buf := 0; buf <= 2; buf++ {
		buf := buf
		add(fmt.Sprintf("stream buf=%d", buf), func(x *mcrt.X) {
			c := ctx.TODO()
			a, b := enc.NewPipe(buf)
			var wg sync.WaitGroup
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 1; i <= 3; i++ {
					if err := a.Write(c, num(i)); err != nil {
						x.Failf("write", "write to an open pipe: %v", err)
					}
				}
				if err := a.Close(c); err != nil {
					x.Failf("close", "close: %v", err)
				}
				if err := a.Write(c, num(9)); !errors.Is(err, io.ErrClosedPipe) {
					x.Failf("write-closed", "write after close: %v", err)
				}
			}()
			got, err := drain(x, c, b, 3)
			if !eq(got, []int{1, 2, 3}) || err != io.EOF {
				x.Failf("order", "wrote 1 2 3 and closed, read %v, %v", got, err)
			}
			if _, err := b.Read(c); err != io.EOF {
				x.Failf("eof", "read after end-of-file: %v", err)
			}
			wg.Wait()
		})
		add(fmt.Sprintf("both directions buf=%d", buf), func(x *mcrt.X) {
			c := ctx.TODO()
			a, b := enc.NewPipe(buf)
			var wg sync.WaitGroup
			wg.Add(1)
			go func() { // echoes
				defer wg.Done()
				for {
					n, err := b.Read(c)
					if err != nil {
						if err != io.EOF {
							x.Failf("echo-read", "read: %v", err)
						}
						break
					}
					if err := b.Write(c, n); err != nil {
						x.Failf("echo-write", "write: %v", err)
					}
				}
				b.Close(c)
			}()
			for i := 1; i <= 2; i++ {
				if err := a.Write(c, num(i)); err != nil {
					x.Failf("write", "write: %v", err)
				}
				n, err := a.Read(c)
				if err != nil || val(x, n) != i {
					x.Failf("echo", "sent %d, got back %v %v", i, n, err)
				}
			}
			a.Close(c)
			if n, err := a.Read(c); err != io.EOF {
				x.Failf("echo-eof", "peer closed, read %v %v", n, err)
			}
			wg.Wait()
		})
		add(fmt.Sprintf("two writers buf=%d", buf), func(x *mcrt.X) {
			c := ctx.TODO()
			a, b := enc.NewPipe(buf)
			var wg, wr sync.WaitGroup
			wg.Add(1)
			wr.Add(2)
			for w := 1; w <= 2; w++ {
				w := w
				go func() {
					defer wr.Done()
					for i := 1; i <= 2; i++ {
						if err := a.Write(c, num(10*w+i)); err != nil {
							x.Failf("write", "write: %v", err)
						}
					}
				}()
			}
			go func() { defer wg.Done(); wr.Wait(); a.Close(c) }()
			got, err := drain(x, c, b, 4)
			if err != io.EOF {
				x.Failf("eof", "read: %v", err)
			}
			last := map[int]int{}
			for _, g := range got {
				if g%10 != last[g/10]+1 {
					x.Failf("order", "two writers wrote 11 12 and 21 22, read %v", got)
				}
				last[g/10]++
			}
			if len(got) != 4 {
				x.Failf("count", "two writers wrote 11 12 and 21 22, read %v", got)
			}
			x.Outf("%v", got)
			wg.Wait()
		})
		add(fmt.Sprintf("two readers buf=%d", buf), func(x *mcrt.X) {
			c := ctx.TODO()
			a, b := enc.NewPipe(buf)
			var wg sync.WaitGroup
			got := make([][]int, 2)
			for r := 0; r < 2; r++ {
				r := r
				wg.Add(1)
				go func() {
					defer wg.Done()
					g, err := drain(x, c, b, 3)
					if err != io.EOF {
						x.Failf("eof", "read: %v", err)
					}
					got[r] = g
				}()
			}
			for i := 1; i <= 3; i++ {
				if err := a.Write(c, num(i)); err != nil {
					x.Failf("write", "write: %v", err)
				}
			}
			a.Close(c)
			wg.Wait()
			seen := map[int]int{}
			for _, g := range got {
				for i, v := range g {
					seen[v]++
					if i > 0 && g[i-1] >= v {
						x.Failf("order", "a reader saw %v", g)
					}
				}
			}
			for i := 1; i <= 3; i++ {
				if seen[i] != 1 {
					x.Failf("once", "message %d read %d times", i, seen[i])
				}
			}
			x.Outf("%v", got)
		})
		add(fmt.Sprintf("cancel reader buf=%d", buf), func(x *mcrt.X) {
			root := ctx.TODO()
			c, cf := ctx.WithCancel(root)
			a, b := enc.NewPipe(buf)
			var wg sync.WaitGroup
			wg.Add(2)
			go func() { defer wg.Done(); cf(nil) }()
			go func() {
				defer wg.Done()
				for i := 1; i <= 2; i++ {
					if err := a.Write(root, num(i)); err != nil {
						x.Failf("write", "write: %v", err)
					}
				}
				a.Close(root)
			}()
			got, err := drain(x, c, b, 2)
			if err != io.EOF && !errors.Is(err, context.Canceled) {
				x.Failf("err", "read with a cancelled context: %v", err)
			}
			if err != io.EOF && c.Err() == nil {
				x.Failf("early", "read failed with %v while the context is alive", err)
			}
			first := len(got)
			if err != io.EOF {
				rest, err := drain(x, root, b, 2)
				if err != io.EOF {
					x.Failf("eof", "read: %v", err)
				}
				got = append(got, rest...)
			}
			if !eq(got, []int{1, 2}) {
				x.Failf("lost", "wrote 1 2, read %v (cancelled after %d)", got, first)
			}
			x.Outf("%d %v", first, err)
			wg.Wait()
		})
		add(fmt.Sprintf("cancel idle reader buf=%d", buf), func(x *mcrt.X) {
			c, cf := ctx.WithCancel(ctx.TODO())
			_, b := enc.NewPipe(buf)
			go cf(errors.New("why"))
			n, err := b.Read(c)
			if !errors.Is(err, context.Canceled) || n != nil {
				x.Failf("err", "blocked read with a cancelled context: %v %v", n, err)
			}
		})
		add(fmt.Sprintf("cancel writer buf=%d", buf), func(x *mcrt.X) {
			root := ctx.TODO()
			c, cf := ctx.WithCancel(root)
			a, b := enc.NewPipe(buf)
			var wg sync.WaitGroup
			wg.Add(2)
			go func() { defer wg.Done(); cf(nil) }()
			var want []int
			go func() {
				defer wg.Done()
				for i := 1; i <= 3; i++ {
					err := a.Write(c, num(i))
					switch {
					case err == nil:
						want = append(want, i)
					case !errors.Is(err, context.Canceled):
						x.Failf("err", "write with a cancelled context: %v", err)
					case c.Err() == nil:
						x.Failf("early", "write failed with %v while the context is alive", err)
					}
				}
				a.Close(root)
			}()
			got, err := drain(x, root, b, 3)
			if err != io.EOF {
				x.Failf("eof", "read: %v", err)
			}
			wg.Wait()
			if !eq(got, want) {
				x.Failf("lost", "acknowledged writes %v, read %v", want, got)
			}
			x.Outf("%v", got)
		})
		add(fmt.Sprintf("cancel blocked writer buf=%d", buf), func(x *mcrt.X) {
			root := ctx.TODO()
			c, cf := ctx.WithCancel(root)
			a, b := enc.NewPipe(buf)
			for i := 1; i <= buf; i++ {
				if err := a.Write(root, num(i)); err != nil {
					x.Failf("write", "write: %v", err)
				}
			}
			go cf(nil)
			if err := a.Write(c, num(9)); !errors.Is(err, context.Canceled) {
				x.Failf("err", "blocked write with a cancelled context: %v", err)
			}
			var want []int
			for i := 1; i <= buf; i++ {
				want = append(want, i)
			}
			a.Close(root)
			if got, err := drain(x, root, b, buf); !eq(got, want) || err != io.EOF {
				x.Failf("lost", "wrote %v, read %v %v", want, got, err)
			}
		})
		add(fmt.Sprintf("timeout buf=%d", buf), func(x *mcrt.X) {
			root := ctx.TODO()
			c, cf := ctx.WithTimeout(root, time.Second)
			defer cf()
			_, b := enc.NewPipe(buf)
			t0 := mcrt.VNow()
			_, err := b.Read(c)
			if !errors.Is(err, context.DeadlineExceeded) {
				x.Failf("err", "read past its deadline: %v", err)
			}
			if d := mcrt.VNow() - t0; d > int64(1100*time.Millisecond) {
				x.Failf("late", "read with a one second deadline took %v", time.Duration(d))
			}
		})
		// writer closed while one of its own writes may be blocked
		s := add(fmt.Sprintf("close during write buf=%d", buf), func(x *mcrt.X) {
			c := ctx.TODO()
			a, b := enc.NewPipe(buf)
			var wg sync.WaitGroup
			wg.Add(2)
			var want []int
			go func() {
				defer wg.Done()
				closed := false
				for i := 1; i <= 2; i++ {
					err := a.Write(c, num(i))
					switch {
					case err == nil:
						want = append(want, i)
						if closed {
							x.Failf("reopen", "a write succeeded after one reported a closed pipe")
						}
					case errors.Is(err, io.ErrClosedPipe):
						closed = true
					default:
						x.Failf("err", "write against close: %v", err)
					}
				}
			}()
			go func() {
				defer wg.Done()
				if err := a.Close(c); err != nil {
					x.Failf("close", "close: %v", err)
				}
			}()
			got, err := drain(x, c, b, 2)
			if err != io.EOF {
				x.Failf("eof", "read: %v", err)
			}
			wg.Wait()
			if !eq(got, want) {
				x.Failf("lost", "acknowledged writes %v, read %v", want, got)
			}
			x.Outf("%v", got)
		})
		s.NoRace = true // go's detector treats close against send as a race even where both outcomes are defined
		s = add(fmt.Sprintf("double close buf=%d", buf), func(x *mcrt.X) {
			c := ctx.TODO()
			a, b := enc.NewPipe(buf)
			var wg sync.WaitGroup
			wg.Add(2)
			for i := 0; i < 2; i++ {
				go func() {
					defer wg.Done()
					if err := a.Close(c); err != nil {
						x.Failf("close", "close: %v", err)
					}
					if err := a.Write(c, num(1)); !errors.Is(err, io.ErrClosedPipe) {
						x.Failf("write-closed", "write after close: %v", err)
					}
				}()
			}
			if n, err := b.Read(c); err != io.EOF {
				x.Failf("eof", "read %v %v", n, err)
			}
			wg.Wait()
			if err := a.Close(c); err != nil {
				x.Failf("close", "close again: %v", err)
			}
			if err := b.Close(c); err != nil {
				x.Failf("close", "close the other end: %v", err)
			}
			if n, err := a.Read(c); err != io.EOF {
				x.Failf("eof", "read %v %v", n, err)
			}
		})
		s.NoRace = true
		// every sequence of operations by one goroutine against a queue
		add(fmt.Sprintf("sequences buf=%d", buf), func(x *mcrt.X) {
			root := ctx.TODO()
			dead, cf := ctx.WithCancel(root)
			cf(nil)
			p := [2]enc.Pipe{}
			p[0], p[1] = enc.NewPipe(buf)
			var q [2][]int // q[i]: written at i, not yet read at 1-i
			var closed [2]bool
			seq := 0
			hist := ""
			for step := 0; step < 6; step++ {
				op := mcrt.Choose(9)
				if op == 8 {
					break
				}
				end, op := op&1, op>>1
				hist += fmt.Sprintf(" %s%d", []string{"write", "read", "close", "write-cancelled"}[op], end)
				switch op {
				case 0:
					seq++
					c, cf := ctx.WithTimeout(root, time.Second)
					err := p[end].Write(c, num(seq))
					cf()
					switch {
					case closed[end]:
						if !errors.Is(err, io.ErrClosedPipe) {
							x.Failf("seq-write-closed", "%s: write after close: %v", hist, err)
						}
					case len(q[end]) < buf:
						if err != nil {
							x.Failf("seq-write", "%s: %v", hist, err)
						}
						q[end] = append(q[end], seq)
					default:
						if !errors.Is(err, context.DeadlineExceeded) {
							x.Failf("seq-write-full", "%s: write with no room: %v", hist, err)
						}
					}
				case 1:
					c, cf := ctx.WithTimeout(root, time.Second)
					n, err := p[end].Read(c)
					cf()
					switch {
					case len(q[1-end]) > 0:
						if err != nil || val(x, n) != q[1-end][0] {
							x.Failf("seq-read", "%s: read %v %v, want %d", hist, n, err, q[1-end][0])
						}
						q[1-end] = q[1-end][1:]
					case closed[1-end]:
						if err != io.EOF {
							x.Failf("seq-eof", "%s: read %v %v", hist, n, err)
						}
					default:
						if !errors.Is(err, context.DeadlineExceeded) {
							x.Failf("seq-read-empty", "%s: read %v %v", hist, n, err)
						}
					}
				case 2:
					if err := p[end].Close(root); err != nil {
						x.Failf("seq-close", "%s: %v", hist, err)
					}
					closed[end] = true
				case 3:
					seq++
					err := p[end].Write(dead, num(seq))
					switch {
					case err == nil && !closed[end] && len(q[end]) < buf:
						q[end] = append(q[end], seq)
					case errors.Is(err, context.Canceled), closed[end] && errors.Is(err, io.ErrClosedPipe):
					default:
						x.Failf("seq-write-cancelled", "%s: %v", hist, err)
					}
				}
			}
		}).MaxBound = -1
	}
	// buffers of every size, filled and emptied in rounds of every shape
	add("buffers", func(x *mcrt.X) {
		root := ctx.TODO()
		bufs := []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100, 128, 130, 256, 257}
		buf := bufs[mcrt.Choose(len(bufs))]
		in := []int{1, buf, buf - 1, (buf + 1) / 2, buf/3 + 1}[mcrt.Choose(5)]  // written per round, as far as there is room
		out := []int{1, buf, buf - 1, (buf + 1) / 2, buf/4 + 1}[mcrt.Choose(5)] // read per round, as far as there is something
		dir := mcrt.Choose(2)
		var p [2]enc.Pipe
		p[0], p[1] = enc.NewPipe(buf)
		a, b := p[dir], p[1-dir]
		timed := func(f func(c ctx.C) error) error {
			c, cf := ctx.WithTimeout(root, time.Second)
			defer cf()
			return f(c)
		}
		seq, read := 0, 0
		take := func() {
			n, err := b.Read(root)
			read++
			if err != nil || val(x, n) != read {
				x.Failf("buffers", "buffer %d, rounds of %d and %d: read %v %v, want %d", buf, in, out, n, err, read)
			}
		}
		for round := 0; round < 6; round++ {
			for i := 0; i < in && seq-read < buf; i++ {
				seq++
				if err := a.Write(root, num(seq)); err != nil {
					x.Failf("buffers", "buffer %d, %d in it: %v", buf, seq-1-read, err)
				}
			}
			if seq-read == buf {
				if err := timed(func(c ctx.C) error { return a.Write(c, num(-1)) }); !errors.Is(err, context.DeadlineExceeded) {
					x.Failf("buffers", "buffer %d, full: %v", buf, err)
				}
			}
			for i := 0; i < out && read < seq; i++ {
				take()
			}
			if read == seq {
				if err := timed(func(c ctx.C) error { _, err := b.Read(c); return err }); !errors.Is(err, context.DeadlineExceeded) {
					x.Failf("buffers", "buffer %d, empty: %v", buf, err)
				}
			}
		}
		if err := a.Close(root); err != nil {
			x.Failf("buffers", "close: %v", err)
		}
		for read < seq {
			take()
		}
		if n, err := b.Read(root); err != io.EOF {
			x.Failf("buffers", "buffer %d: read %v %v at the end", buf, n, err)
		}
	}).MaxBound = -1
	// long streams
	for _, buf := range []int{0, 1, 10} {
		buf := buf
		add(fmt.Sprintf("long streams buf=%d", buf), func(x *mcrt.X) {
			const n = 300
			c := ctx.TODO()
			a, b := enc.NewPipe(buf)
			go func() { // one at a time, or the orders would be without number
				for i := 1; i <= n; i++ {
					if err := a.Write(c, num(i)); err != nil {
						x.Failf("write", "write %d: %v", i, err)
					}
				}
				a.Close(c)
			}()
			got, err := drain(x, c, b, n)
			if len(got) != n || err != io.EOF {
				x.Failf("long", "read %d of %d: %v", len(got), n, err)
			}
			for i, v := range got {
				if v != i+1 {
					x.Failf("long", "message %d is %d", i+1, v)
				}
			}
		}).MaxBound = -1
	}
	return out
}

func main() {
	mc.Main("C06", mc.Options{
		QuickBound: 2, ThoroughBound: 5,
		Rule:   "schedules of the listed scenarios up to the preemption bound; all operation sequences to depth 6 over both ends; buffers of up to 257 filled and emptied in rounds of every shape; long streams",
		Assume: []string{"the scheduler's channel, context and timer models follow the Go specification"},
	}, scenarios)
}
