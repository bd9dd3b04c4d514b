// C17: every way a reader may split a stream, every ending, and a context that ends at every point.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"sync"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/utils"

	"verif.local/mc/lib/mc"
	"verif.local/mc/mcrt"
	"verif.local/mc/mcrt/lin"
)

var errRead = errors.New("broken")

// reader hands out a chosen piece per Read, then a chosen end.
type reader struct {
	sizes   []int // pieces to choose from; -1: as much as fits
	left    int   // reads
	sent    []byte
	end     error
	ended   bool
	with    bool // the end comes together with the last data
	closed  int
	after   int // reads after the end
	slow    time.Duration
	started lin.Book
	next    byte
	big     bool
	hist    string
}

func (r *reader) Read(p []byte) (int, error) {
	r.started.Tick()
	if r.slow > 0 {
		time.Sleep(r.slow)
	}
	if r.ended {
		r.after++
		return 0, r.end
	}
	n := 0
	if r.left > 0 {
		r.left--
		n = r.sizes[mcrt.Choose(len(r.sizes))]
		if n < 0 || n > len(p) {
			n = len(p)
		}
		for i := 0; i < n; i++ {
			p[i] = r.next
			r.sent = append(r.sent, r.next)
			r.next++
		}
		for i := n; i < len(p) && i < n+8; i++ {
			p[i] = 0xEE // scratch space, as io.Reader allows
		}
		r.hist += fmt.Sprintf(" %d", n)
		if r.left > 0 || !r.with {
			return n, nil
		}
	}
	r.ended = true
	r.hist += fmt.Sprintf(" %v", r.end)
	return n, r.end
}

func (r *reader) close() error { r.closed++; return errors.New("close fails") }

// splits: no concurrency beyond ReadAll's own
func splits(name string, reads int, sizes []int) *mcrt.Scenario {
	return &mcrt.Scenario{Name: name, MaxBound: -1, NoUnlockPoints: true, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		r := &reader{sizes: sizes, left: mcrt.Choose(reads + 1), with: mcrt.Choose(2) == 1, end: []error{io.EOF, errRead, io.ErrUnexpectedEOF}[mcrt.Choose(3)]}
		cl := r.close
		if mcrt.Choose(2) == 1 {
			cl = nil
		}
		got, err := utils.ReadAll(ctx.TODO(), r, cl)
		what := fmt.Sprintf("reads%s, with the data: %v", r.hist, r.with)
		if !bytes.Equal(got, r.sent) {
			x.Failf("bytes", "%s: %d bytes of %d", what, len(got), len(r.sent))
		}
		switch {
		case r.end == io.EOF && err != nil:
			x.Failf("eof", "%s: error %v", what, err)
		case r.end != io.EOF && !errors.Is(err, r.end):
			x.Failf("error", "%s: error %v", what, err)
		}
		if cl != nil && r.closed != 1 {
			x.Failf("close", "%s: closed %d times", what, r.closed)
		}
		if r.after > 0 {
			x.Failf("read-on", "%s: read again after the end", what)
		}
		x.Outf("%v", r.end)
		return nil
	}}
}

// ending: the context ends at any point of the reading
func ending(name string, reads int, how int, quick, bound int) *mcrt.Scenario {
	return &mcrt.Scenario{Name: name, QuickBound: quick, MaxBound: bound, KeepTimers: true, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		r := &reader{sizes: []int{3, 0}, left: reads, end: []error{io.EOF, errRead}[mcrt.Choose(2)], with: mcrt.Choose(2) == 1}
		base := ctx.TODO()
		var c ctx.C
		var cause error = context.Canceled
		var fin sync.WaitGroup
		if how == 0 {
			cc, cf := ctx.WithCancel(base)
			c = cc
			fin.Add(1)
			go func() { defer fin.Done(); cf(errors.New("because")) }()
		} else {
			r.slow = 400 * time.Millisecond
			cc, cf := ctx.WithTimeout(base, time.Second)
			defer cf()
			c = cc
			cause = context.DeadlineExceeded
		}
		got, err := utils.ReadAll(c, r, r.close)
		at := r.started.Tick()
		snap := append([]byte{}, got...)
		fin.Wait()
		return func(x *mcrt.X, i *mcrt.Info) {
			mcrt.DefaultJudge(&mcrt.Scenario{}, x, i)
			if i.Status != "done" {
				return
			}
			if !bytes.Equal(got, snap) {
				x.Failf("changed", "the bytes returned changed afterwards")
			}
			if !bytes.HasPrefix(r.sent, got) {
				x.Failf("prefix", "returned %v of %v", got, r.sent)
			}
			switch {
			case err == nil:
				if r.end != io.EOF || !r.ended || len(got) != len(r.sent) {
					x.Failf("early-success", "success with %d of %d bytes, ended %v", len(got), len(r.sent), r.ended)
				}
			case errors.Is(err, cause):
			case errors.Is(err, errRead):
				if len(got) != len(r.sent) {
					x.Failf("error-bytes", "%d of %d bytes with %v", len(got), len(r.sent), err)
				}
			default:
				x.Failf("which-error", "%v", err)
			}
			if r.closed != 1 {
				x.Failf("close", "closed %d times", r.closed)
			}
			if later := r.started.Tick() - at - 1; later > 1 || (later > 0 && err == nil) {
				x.Failf("read-on", "%d reads began after the call returned %v", later, err)
			}
			x.Outf("%v", err == nil)
		}
	}}
}

// stuck: the reader never returns by itself; the call returns at once when the context ends
func stuck(name string, wakes bool) *mcrt.Scenario {
	return &mcrt.Scenario{Name: name, QuickBound: 3, MaxBound: 6, AllowLeak: !wakes, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		c, cf := ctx.WithTimeout(ctx.TODO(), time.Second)
		defer cf()
		block := make(chan struct{})
		first := true
		rd := readFunc(func(p []byte) (int, error) {
			if first {
				first = false
				return copy(p, "ab"), nil
			}
			<-block
			return copy(p, "late"), nil
		})
		var cl func() error
		if wakes {
			cl = func() error { close(block); return nil }
		}
		got, err := utils.ReadAll(c, rd, cl)
		now := mcrt.VNow()
		snap := string(got)
		mcrt.Yield()
		if !errors.Is(err, context.DeadlineExceeded) {
			x.Failf("stuck-error", "%v", err)
		}
		if now > int64(time.Second)+int64(time.Millisecond) {
			x.Failf("late", "returned at %v", time.Duration(now))
		}
		if string(got) != snap || (snap != "ab" && snap != "") {
			x.Failf("stuck-bytes", "%q then %q", snap, got)
		}
		return nil
	}}
}

type readFunc func(p []byte) (int, error)

func (f readFunc) Read(p []byte) (int, error) { return f(p) }

func scenarios() []*mcrt.Scenario {
	n := 5
	if mc.Thorough() {
		n = 7
	}
	out := []*mcrt.Scenario{
		splits("small pieces", n, []int{1, 0, 3, 2}),
		splits("full buffers", 3, []int{-1, 0, 1, 8191, 4096}),
		ending("cancelled, one read", 1, 0, 4, 8),
		ending("cancelled, three reads", 3, 0, 3, 5),
		ending("deadline", 4, 1, 2, 4),
		stuck("a reader that close wakes", true),
		stuck("a reader that never comes back", false),
	}
	// a pipe, written and closed from elsewhere
	out = append(out, &mcrt.Scenario{Name: "already over", Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		c, cf := ctx.WithCancel(ctx.TODO())
		cf(nil)
		r := &reader{sizes: []int{2}, left: 2, end: io.EOF}
		got, err := utils.ReadAll(c, r, r.close)
		if !errors.Is(err, context.Canceled) && (err != nil || len(got) != 4) {
			x.Failf("over", "%v %v", got, err)
		}
		if r.closed != 1 {
			x.Failf("close", "closed %d times", r.closed)
		}
		return nil
	}})
	return out
}

func main() {
	mc.Main("C17", mc.Options{
		QuickBound: 4, ThoroughBound: 8,
		Rule:   "every sequence of up to 5 reads of every piece size from the lists with every ending, alone or together with data; the context ending before, between and during every read, under every schedule up to the preemption bound",
		Assume: []string{"the reader keeps the contract of io.Reader (end-of-file is io.EOF itself)"},
	}, scenarios)
}
