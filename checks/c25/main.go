// C25: a websocket connection under every schedule of its reader, its handlers, senders in the background, the peer going
// away, the server closing, contexts ending and writes failing.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"log/slog"
	"strings"
	"sync"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/http/ws"

	"verif.local/mc/lib/mc"
	"verif.local/mc/mcrt"
	"verif.local/mc/mcrt/lin"
	"verif.local/mc/wsconn"
)

func mute() { log.SetDefaultLoggerLevel(slog.LevelError + 100) }

func text(j string) []byte { return wsconn.Frame(true, wsconn.Text, j) }

// how a connection ends
const (
	byEOF = iota
	byFrame
	byError
	byServer
	byHandler
	byCancel
	byGarbage
	byFailure // of the handler
)

var ways = []string{"the peer hangs up", "a close frame", "a network error", "Close by the server", "Close by a handler", "the context", "garbage", "an error of a handler"}

// sent is what was written for a sender: the sends which succeeded and those which failed.
type sent struct {
	who int
	seq int
	err error
}

// messages of one direction
type shape struct {
	senders, each int // background senders
	msgs          int // messages of the peer
	pings         int
	echo          bool
	ways          []int
	failAt        []int // writes that fail, 0 none; the handshake is the first write
	bound, quick  int
	closers       int
	late          bool // the way of ending is set off at the same time as everything else
}

func conn(name string, s shape) *mcrt.Scenario {
	return &mcrt.Scenario{Name: name, MaxBound: s.bound, QuickBound: s.quick, NoUnlockPoints: true, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		mute()
		way := s.ways[mcrt.Choose(len(s.ways))]
		peer := wsconn.New()
		what := ways[way]
		if len(s.failAt) > 0 {
			peer.FailAt = s.failAt[mcrt.Choose(len(s.failAt))]
			what += fmt.Sprintf(", write %d fails", peer.FailAt)
		}
		parent, cf := ctx.WithCancel(ctx.TODO())
		defer cf(nil)
		var book, handled lin.Book
		in := 0
		var kept ctx.C
		var theConn *ws.Conn
		var wg sync.WaitGroup
		send := func(c ctx.C, conn *ws.Conn, who, seq int) {
			err := conn.Send(c, []int{who, seq})
			book.Add(sent{who, seq, err})
		}
		stop := func(c ctx.C, conn *ws.Conn) {
			switch way {
			case byEOF:
				peer.End(wsconn.EOF)
			case byError:
				peer.End(wsconn.ErrBroken)
			case byFrame:
				peer.Push(wsconn.Frame(true, wsconn.Close, "\x03\xe8"))
			case byGarbage:
				peer.Push(wsconn.Frame(true, 5, "x"))
			case byServer:
				_ = conn.Close(c, ws.GOING_AWAY)
			case byHandler:
				peer.Push(text(`-1`))
			case byCancel:
				cf(nil)
			case byFailure:
				peer.Push(text(`-2`))
			}
		}
		for i := 0; i < s.msgs; i++ {
			peer.Push(text(fmt.Sprint(i)))
			if i < s.pings {
				peer.Push(wsconn.Frame(true, wsconn.Ping, fmt.Sprint("p", i)))
			}
		}
		h := ws.Handler{
			OnConnect: func(c ctx.C, conn *ws.Conn) (ctx.C, error) {
				kept, theConn = c, conn
				for i := 0; i < s.senders; i++ {
					i := i
					wg.Add(1)
					go func() {
						defer wg.Done()
						for j := 0; j < s.each; j++ {
							send(c, conn, i, j)
						}
					}()
				}
				for i := 0; i < s.closers; i++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						stop(c, conn)
					}()
				}
				wg.Add(1)
				go func() { // somebody who waits for the end
					defer wg.Done()
					<-c.Done()
				}()
				return c, nil
			},
			OnData: func(c ctx.C, conn *ws.Conn, n enc.Node) error {
				in++
				if in > 1 {
					x.Failf("overlap", "%s: two messages are handled at the same time", what)
				}
				defer func() { in-- }()
				var k int
				if err := enc.Unmarshal(c, n, &k); err != nil {
					x.Failf("garbled", "%s: message %v", what, err)
				}
				handled.Add(k)
				switch k {
				case -1:
					return conn.Close(c, ws.GOING_AWAY)
				case -2:
					return errors.New("enough")
				}
				if s.echo {
					send(c, conn, 100, k)
				}
				mcrt.Yield()
				if k == s.msgs-1 && s.closers == 0 {
					stop(c, conn)
				}
				return nil
			},
		}
		if s.msgs == 0 && s.closers == 0 {
			panic("nobody stops")
		}
		if p := wsconn.Serve(h.Server(), parent, peer); p != nil {
			x.Failf("panic", "%s: %v", what, p)
		}
		if !peer.Closed() {
			x.Failf("open", "%s: the server has left and the connection is open", what)
		}
		if kept != nil && kept.Err() == nil {
			x.Failf("context", "%s: the connection has ended and its context has not", what)
		}
		if theConn != nil {
			if err := theConn.Send(ctx.TODO(), 1); err == nil {
				x.Failf("send-after-end", "%s: a send succeeds after the end of the connection", what)
			}
		}
		wg.Wait()
		return func(x *mcrt.X, i *mcrt.Info) {
			mcrt.DefaultJudge(&mcrt.Scenario{}, x, i)
			if i.Status != "done" {
				return
			}
			if peer.FailAt == 1 {
				return // no handshake
			}
			ms, _, err := peer.Frames()
			if err != nil {
				x.Failf("garbled", "%s: %v", what, err)
				return
			}
			// every message is there exactly if its send succeeded, each sender's in order
			count := map[[2]int]int{}
			last := map[int]int{}
			closed, pongs, words := false, 0, 0
			for _, m := range ms {
				if closed && m.Op != wsconn.Close {
					x.Failf("after-close", "%s: %v after a close frame", what, m)
				}
				switch m.Op {
				case wsconn.Close:
					if want := "\x03\xe8"; !closed && m.Data != want && m.Data != "\x03\xe9" {
						x.Failf("close-status", "%s: close frame %q", what, m.Data)
					}
					closed = true
				case wsconn.Pong:
					if m.Data != fmt.Sprint("p", pongs) {
						x.Failf("pong", "%s: pong %q", what, m.Data)
					}
					pongs++
				case wsconn.Text:
					var k [2]int
					var l []int
					if json.Unmarshal([]byte(m.Data), &l) != nil || len(l) != 2 {
						if strings.Contains(m.Data, "disconnect") && strings.Contains(m.Data, "enough") {
							words++
							continue
						}
						x.Failf("garbled", "%s: %v", what, m)
						continue
					}
					copy(k[:], l)
					count[k]++
					if n, ok := last[k[0]]; ok && n >= k[1] {
						x.Failf("order", "%s: message %v after %d", what, k, n)
					}
					last[k[0]] = k[1]
				default:
					x.Failf("garbled", "%s: %v", what, m)
				}
			}
			failed := 0
			for _, v := range book.All() {
				r := v.(sent)
				n := count[[2]int{r.who, r.seq}]
				if r.err == nil && n != 1 {
					x.Failf("lost", "%s: a message whose send succeeded was sent %d times", what, n)
				} else if r.err != nil {
					failed++
					if n != 0 {
						x.Failf("sent-anyway", "%s: a message whose send failed (%v) was sent", what, r.err)
					}
				}
				delete(count, [2]int{r.who, r.seq})
			}
			if len(count) > 0 {
				x.Failf("invented", "%s: messages nobody sent: %v", what, count)
			}
			// the peer's messages: in order, without gaps, all of them if the peer has ended in peace
			n := 0
			for _, v := range handled.All() {
				if k := v.(int); k >= 0 {
					if k != n {
						x.Failf("arrival", "%s: message %d handled in place of %d", what, k, n)
					}
					n++
				}
			}
			if n < s.msgs && peer.FailAt == 0 && (way == byEOF || way == byFrame || way == byError || way == byGarbage) {
				x.Failf("unhandled", "%s: %d of %d messages handled", what, n, s.msgs)
			}
			if peer.FailAt == 0 {
				if failed > 0 && !closed {
					x.Failf("send-failed", "%s: a send failed on a connection which was fine", what)
				}
				if way == byFailure && words != 1 && s.closers == 0 {
					x.Failf("refusal", "%s: told %d times", what, words)
				}
			}
			x.Outf("%s %d %d %d %v", ways[way], len(ms), failed, n, closed)
		}
	}}
}

// ---------------------------------------------------------------- rpc with things going on in the background

type Feed struct {
	Book *lin.Book
	WG   *sync.WaitGroup
	n    int
}

func (f *Feed) Start(c ws.C, n int) error {
	f.WG.Add(1)
	go func() {
		defer f.WG.Done()
		for i := 0; i < n; i++ {
			err := c.Reply("event", i)
			f.Book.Add(sent{0, i, err})
		}
		<-c.Done()
	}()
	return nil
}

func (f *Feed) Inc(c ws.C) error {
	n := f.n
	mcrt.Yield()
	f.n = n + 1
	return c.Reply("n", f.n)
}

func rpc(name string, events int, closing bool, bound, quick int) *mcrt.Scenario {
	return &mcrt.Scenario{Name: name, MaxBound: bound, QuickBound: quick, NoUnlockPoints: true, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		mute()
		peer := wsconn.New()
		var book lin.Book
		var wg sync.WaitGroup
		c, cf := ctx.WithCancel(ctx.TODO())
		defer cf(nil)
		h := (&ws.RpcHandler{}).MustRegister(c, &Feed{Book: &book, WG: &wg})
		peer.Push(text(`{"channel":"a","type":"open","path":"feed"}`))
		peer.Push(text(`{"channel":"b","type":"open","path":"feed"}`))
		peer.Push(text(fmt.Sprintf(`{"channel":"a","path":"start","data":%d}`, events)))
		peer.Push(text(`{"channel":"b","path":"inc"}`))
		peer.Push(text(`{"channel":"b","path":"inc"}`))
		if closing {
			peer.Push(text(`{"channel":"a","type":"close"}`))
		}
		peer.End(wsconn.EOF)
		if p := wsconn.Serve(h.Server(), c, peer); p != nil {
			x.Failf("panic", "%v", p)
		}
		wg.Wait()
		return func(x *mcrt.X, i *mcrt.Info) {
			mcrt.DefaultJudge(&mcrt.Scenario{}, x, i)
			if i.Status != "done" {
				return
			}
			ms, _, err := peer.Frames()
			if err != nil {
				x.Failf("garbled", "%v", err)
				return
			}
			var evs, rest []string
			for _, m := range ms {
				if m.Op != wsconn.Text {
					continue
				}
				var f struct{ Channel, Path, Type string }
				if err := json.Unmarshal([]byte(m.Data), &f); err != nil {
					x.Failf("garbled", "%v: %v", m, err)
				}
				var d struct{ Data any }
				_ = json.Unmarshal([]byte(m.Data), &d)
				s := fmt.Sprint(f.Channel, ".", f.Path, ":", f.Type, " ", d.Data)
				if f.Path == "event" {
					evs = append(evs, s)
				} else {
					rest = append(rest, s)
				}
			}
			want := []string{"a.start:return <nil>", "b.n: 1", "b.inc:return <nil>", "b.n: 2", "b.inc:return <nil>"}
			if closing {
				want = append(want, "a.:close <nil>")
			}
			if fmt.Sprint(rest) != fmt.Sprint(want) {
				x.Failf("answers", "answers %v, want %v", rest, want)
			}
			n := 0
			for _, v := range book.All() {
				if r := v.(sent); r.err == nil {
					if n >= len(evs) || evs[n] != fmt.Sprintf("a.event: %d", r.seq) {
						x.Failf("events", "events %v, without %d", evs, r.seq)
					}
					n++
				}
			}
			if n != len(evs) {
				x.Failf("events", "%d events sent, %d there", n, len(evs))
			}
			x.Outf("%d", n)
		}
	}}
}

// ---------------------------------------------------------------- the test client

type Calc struct{ sum int }

func (o *Calc) Add(c ws.C, n int) error {
	if n < 0 {
		return fmt.Errorf("negative %d", n)
	}
	o.sum += n
	return c.Reply("sum", o.sum)
}

func client(name string, users int, calls []int, bound, quick int) *mcrt.Scenario {
	return &mcrt.Scenario{Name: name, MaxBound: bound, QuickBound: quick, NoUnlockPoints: true, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		mute()
		c, cf := ctx.WithCancel(ctx.TODO())
		h := (&ws.RpcHandler{}).MustRegister(c, &Calc{})
		cli := h.NewTest(c)
		var wg sync.WaitGroup
		for u := 0; u < users; u++ {
			u := u
			wg.Add(1)
			go func() {
				defer wg.Done()
				var got lin.Book
				call, err := cli.Open(c, "calc", nil, func(c ctx.C, f ws.Frame) error {
					if f.Path == "sum" {
						got.Add(f.Data.String())
					}
					return nil
				})
				if err != nil {
					x.Failf("open", "user %d: %v", u, err)
					return
				}
				sum := 0
				var want []string
				for _, n := range calls {
					err := call(c, "add", n)
					if n < 0 {
						if err == nil || !strings.Contains(err.Error(), fmt.Sprintf("negative %d", n)) {
							x.Failf("call-error", "user %d: add %d answers %v", u, n, err)
						}
						continue
					}
					if err != nil {
						x.Failf("call", "user %d: add %d answers %v", u, n, err)
					}
					sum += n
					want = append(want, fmt.Sprint(sum))
				}
				if g := got.All(); len(g) != len(want) {
					x.Failf("call-results", "user %d: results %v, want %v", u, g, want)
				} else {
					for i := range g {
						if g[i] != want[i] {
							x.Failf("call-results", "user %d: results %v, want %v", u, g, want)
						}
					}
				}
			}()
		}
		wg.Wait()
		if err := cli.Close(c); err != nil {
			x.Failf("close", "%v", err)
		}
		cf(nil)
		return nil
	}}
}

func main() {
	mc.Main("C25", mc.Options{QuickBound: 2, ThoroughBound: 3,
		Rule:   "every schedule up to the preemption bound of the server of a connection with senders in the background, messages and pings of the peer and every way of ending (the peer hanging up, a close frame, a network error, garbage, Close by the server or a handler, a handler's error, the context), with every write failing in turn; of objects which send events in the background; and of test clients on several channels",
		Assume: []string{"writes of the network do not block for ever", "the websocket library is explored as part of the system"},
	}, func() []*mcrt.Scenario {
		all := []int{byEOF, byFrame, byError, byServer, byHandler, byCancel, byGarbage, byFailure}
		return []*mcrt.Scenario{
			conn("echo, one sender, ends after the last message", shape{senders: 1, each: 1, msgs: 2, echo: true, ways: all, bound: 3, quick: 1}),
			conn("one sender, ends at any time", shape{senders: 1, each: 2, ways: all, closers: 1, bound: 2, quick: 1}),
			conn("echo, ends at any time", shape{msgs: 2, echo: true, ways: all, closers: 1, bound: 2, quick: 1}),
			conn("echo, two ends at any time", shape{msgs: 1, echo: true, ways: []int{byServer, byCancel}, closers: 2, bound: 2, quick: 1}),
			conn("two senders", shape{senders: 2, each: 1, msgs: 1, ways: []int{byEOF, byServer}, bound: 2, quick: 1}),
			conn("pings and a sender", shape{senders: 1, each: 1, msgs: 2, pings: 2, ways: []int{byEOF, byServer}, bound: 3, quick: 1}),
			conn("writes fail", shape{msgs: 2, pings: 1, echo: true, ways: []int{byEOF, byServer, byCancel, byFailure}, failAt: []int{1, 2, 3, 4, 5}, bound: 2, quick: 1}),
			conn("writes of a sender fail", shape{senders: 1, each: 2, msgs: 1, ways: []int{byEOF, byServer}, failAt: []int{2, 3, 4}, bound: 2, quick: 1}),
			rpc("rpc, events in the background", 2, false, 3, 2),
			rpc("rpc, events on a channel being closed", 1, true, 3, 2),
			client("test client, one user", 1, []int{1, -2, 3}, 3, 2),
			client("test client, two users", 2, []int{1}, 1, 0),
		}
	})
}
