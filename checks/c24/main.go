// C24: every conversation of a client with a websocket server, up to a number of frames, valid, malformed and hostile, on a
// connection in memory; the server's frames are judged by a model of the protocol.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log/slog"
	"reflect"
	"strings"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/http/ws"

	"verif.local/mc/lib/mc"
	"verif.local/mc/mcrt"
	"verif.local/mc/mcrt/lin"
	"verif.local/mc/wsconn"
)

func mute() { log.SetDefaultLoggerLevel(slog.LevelError + 100) }

// ---------------------------------------------------------------- the objects served

type Obj struct {
	Book   *lin.Book
	Base   int
	Zero   int
	hidden int
	sum    int
}

func (o *Obj) note(f string, a ...any) { o.Book.Add(fmt.Sprintf(f, a...)) }

func (o *Obj) Init(c ws.C, in int) error {
	o.note("init %d %d/%d/%d/%d", in, o.Base, o.Zero, o.hidden, o.sum)
	switch {
	case in < 0:
		return errors.New("no-init")
	case in == 99:
		panic("init panics")
	}
	o.sum = o.Base + in
	return c.Reply("hello", in)
}

func (o *Obj) Add(c ws.C, n int) error {
	o.note("add %d %d", o.sum, n)
	if n < 0 {
		return fmt.Errorf("negative %d", n)
	}
	o.sum += n
	if err := c.Reply("sum", o.sum); err != nil {
		return err
	}
	return c.Reply("added", []int{n})
}

func (o *Obj) Get(c ws.C) error { o.note("get %d", o.sum); return c.Reply("sum", o.sum) }

func (o *Obj) Quiet(c ws.C) { o.note("quiet %d", o.sum); o.sum++ }

func (o *Obj) Wrapped(c ws.C, s string) error {
	o.note("wrapped %s", s)
	_ = c.Reply("before", s)
	return ctx.NewErrorf(c, "wrapped %w", io.EOF)
}

func (o *Obj) Boom(c ws.C) error { o.note("boom"); panic("method panics") }
func (o *Obj) Odd(c ws.C) error  { o.note("odd"); return c.Reply("odd", make(chan int)) }
func (o *Obj) Bye(c ws.C) error  { o.note("bye"); return c.Close() }

// not exposed
func (o *Obj) Two(c ws.C, a, b int) error { o.note("two"); return nil }
func (o *Obj) Foo(a int)                  { o.note("foo") }
func (o *Obj) Bare() error                { o.note("bare"); return nil }
func (o *Obj) private(c ws.C) error       { o.note("private"); return nil } //nolint

// Note is registered by value, has no Init and takes a struct.
type Note struct {
	Book  *lin.Book
	Title string
	n     int
}

type line struct {
	Text string `json:"text"`
	N    *int   `json:"n,omitempty"`
}

func (o *Note) Put(c ws.C, l line) error {
	n := -1
	if l.N != nil {
		n = *l.N
	}
	o.n++
	o.Book.Add(fmt.Sprintf("put %s %s %d %d", o.Title, l.Text, n, o.n))
	return c.Reply("put", l)
}

func (o Note) Count(c ws.C) error {
	o.Book.Add(fmt.Sprintf("count %d", o.n))
	return c.Reply("count", o.n)
}

// ---------------------------------------------------------------- the model

type frame struct {
	Channel string          `json:"channel"`
	Path    string          `json:"path"`
	Type    string          `json:"type"`
	Data    json.RawMessage `json:"data"`
}

type inst struct {
	kind string
	sum  int
}

type model struct {
	x     *mcrt.X
	what  string
	out   []frame
	chans map[string]*inst
	calls []string
	pings []string // payloads of the pings surely answered
	late  []string // those which may be
	ended bool
	loose bool // later frames may still be handled
	bad   bool
}

func (m *model) fail(kind, f string, a ...any) {
	if !m.bad {
		what := m.what
		if len(what) > 500 {
			what = what[:200] + " ... " + what[len(what)-300:]
		}
		m.x.Failf(kind, "%s: %s", what, fmt.Sprintf(f, a...))
	}
	m.bad = true
}

func (m *model) next() *frame {
	if len(m.out) == 0 {
		return nil
	}
	f := m.out[0]
	m.out = m.out[1:]
	return &f
}

func (m *model) call(f string, a ...any) { m.calls = append(m.calls, fmt.Sprintf(f, a...)) }

func (m *model) reply(ch, path, data string) {
	f := m.next()
	if f == nil {
		m.fail("missing-reply", "no reply %s %s on channel %q", path, data, ch)
	} else if f.Channel != ch || f.Path != path || !same(f.Data, data) || f.Type != "" && f.Type != "data" {
		m.fail("wrong-reply", "got %s, want %s %s on channel %q", f, path, data, ch)
	}
}

func same(a json.RawMessage, b string) bool {
	var x, y any
	return json.Unmarshal(a, &x) == nil && json.Unmarshal([]byte(b), &y) == nil && reflect.DeepEqual(x, y)
}

func (m *model) ret(ch, path string) {
	f := m.next()
	if f == nil {
		m.fail("missing-answer", "no answer to %s on channel %q", path, ch)
	} else if f.Channel != ch || f.Path != path || f.Type != "return" || len(f.Data) > 0 && string(f.Data) != "null" {
		m.fail("wrong-answer", "got %s, want the return of %s on channel %q", f, path, ch)
	}
}

func (m *model) text(f *frame) string {
	var s string
	_ = json.Unmarshal(f.Data, &s)
	return s
}

func (m *model) err(ch, path, text string) {
	f := m.next()
	if f == nil {
		m.fail("missing-error", "no error %s for %s on channel %q", text, path, ch)
	} else if f.Channel != ch || f.Path != "" && f.Path != path || f.Type != "error" && f.Type != "return" || !strings.Contains(m.text(f), text) || m.text(f) == "" {
		m.fail("wrong-error", "got %s, want the error %q of %s on channel %q", f, text, path, ch)
	}
}

// fatal: the client is told, and the connection may go on or end
func (m *model) fatal(ch, why string) {
	f := m.next()
	switch {
	case f == nil:
		m.fail("missing-refusal", "%s is not answered", why)
	case m.text(f) == "" || f.Channel != "" && f.Channel != ch:
		m.fail("wrong-refusal", "%s is answered with %s", why, f)
	case f.Type == "disconnect":
		m.ended = true
	case f.Type != "error":
		m.fail("wrong-refusal", "%s is answered with %s", why, f)
	}
}

func (f frame) String() string { j, _ := json.Marshal(f); return string(j) }

type letter struct {
	name string
	raw  []byte
	do   func(m *model)
}

func text(j string) []byte { return wsconn.Frame(true, wsconn.Text, j) }

func open(ch, path, data, typ string) letter {
	j := fmt.Sprintf(`{"channel":%q,"type":%q,"path":%q`, ch, typ, path)
	if data != "" {
		j += `,"data":` + data
	}
	j += "}"
	return letter{typ + " " + ch + " " + path + " " + data, text(j), func(m *model) {
		switch path {
		case "note":
			m.chans[ch] = &inst{kind: "note"}
		case "obj":
			var in int
			if json.Unmarshal([]byte(data), &in) != nil {
				m.err(ch, path, "")
				return
			}
			m.call("init %d 10/0/0/0", in)
			switch {
			case in < 0:
				m.err(ch, path, "no-init")
			case in == 99:
				if len(m.out) == 0 { // net/http gives up the connection
					m.ended = true
				} else {
					m.fatal(ch, "a panic of Init")
				}
			default:
				m.chans[ch] = &inst{kind: "obj", sum: in + 10}
				m.reply(ch, "hello", fmt.Sprint(in))
			}
		default:
			m.fatal(ch, "opening unknown "+path)
		}
	}}
}

func call(ch, path, data, typ string) letter {
	j := fmt.Sprintf(`{"channel":%q,"path":%q`, ch, path)
	if typ != "" {
		j += fmt.Sprintf(`,"type":%q`, typ)
	}
	if data != "" {
		j += `,"data":` + data
	}
	j += "}"
	return letter{typ + " " + ch + "." + path + "(" + data + ")", text(j), func(m *model) {
		o := m.chans[ch]
		if o == nil {
			m.fatal(ch, "a frame for unknown channel "+ch)
			return
		}
		switch o.kind + "." + path {
		case "obj.add":
			var n int
			if json.Unmarshal([]byte(data), &n) != nil {
				m.err(ch, path, "")
				return
			}
			m.call("add %d %d", o.sum, n)
			if n < 0 {
				m.err(ch, path, fmt.Sprintf("negative %d", n))
				return
			}
			o.sum += n
			m.reply(ch, "sum", fmt.Sprint(o.sum))
			m.reply(ch, "added", fmt.Sprintf("[%d]", n))
			m.ret(ch, path)
		case "obj.get":
			m.call("get %d", o.sum)
			m.reply(ch, "sum", fmt.Sprint(o.sum))
			m.ret(ch, path)
		case "obj.quiet":
			m.call("quiet %d", o.sum)
			o.sum++
			m.ret(ch, path)
		case "obj.wrapped":
			var s string
			if json.Unmarshal([]byte(data), &s) != nil {
				m.err(ch, path, "")
				return
			}
			m.call("wrapped %s", s)
			m.reply(ch, "before", data)
			m.err(ch, path, "wrapped EOF")
		case "obj.boom":
			m.call("boom")
			m.fatal(ch, "a panic of a method")
		case "obj.odd":
			m.call("odd")
			m.err(ch, path, "")
		case "obj.bye":
			m.call("bye")
			m.ended, m.loose = true, true
		case "note.put":
			var l line
			if json.Unmarshal([]byte(data), &l) != nil {
				m.err(ch, path, "")
				return
			}
			n := -1
			if l.N != nil {
				n = *l.N
			}
			o.sum++
			m.call("put draft %s %d %d", l.Text, n, o.sum)
			b, _ := json.Marshal(l)
			m.reply(ch, "put", string(b))
			m.ret(ch, path)
		case "note.count":
			m.call("count %d", o.sum)
			m.reply(ch, "count", fmt.Sprint(o.sum))
			m.ret(ch, path)
		default:
			m.fatal(ch, "unknown method "+path)
		}
	}}
}

func closing(ch string) letter {
	j := fmt.Sprintf(`{"channel":%q,"type":"close"}`, ch)
	if ch == "" {
		j = `{"type":"close"}`
	}
	return letter{"close " + ch, text(j), func(m *model) {
		switch {
		case ch == "":
			m.ended, m.loose = true, true // it asks for the end of the connection
		case m.chans[ch] == nil:
			m.fatal(ch, "closing unknown channel "+ch)
		default:
			delete(m.chans, ch)
			f := m.next()
			if f == nil {
				m.fail("missing-close", "closing channel %q is not confirmed", ch)
			} else if f.Channel != ch || f.Type != "close" {
				m.fail("wrong-close", "closing channel %q is answered with %s", ch, f)
			}
		}
	}}
}

func bad(name string, raw []byte) letter { // a message which is no frame of the protocol
	return letter{name, raw, func(m *model) { m.fatal("", name) }}
}

func end(name string, raw []byte) letter { // no message at all: the connection ends, with or without a word
	return letter{name, raw, func(m *model) {
		m.ended = true
		if len(m.out) == 1 && (m.out[0].Type == "disconnect" || m.out[0].Type == "error") && m.text(&m.out[0]) != "" {
			m.out = nil
		}
	}}
}

func ping(data string) letter {
	return letter{fmt.Sprintf("ping %q", data), wsconn.Frame(true, wsconn.Ping, data), func(m *model) { m.pings = append(m.pings, data) }}
}

func nothing(name string, raw []byte) letter { return letter{name, raw, func(m *model) {}} }

func torn(op byte, j string, keep int) []byte {
	b := wsconn.Frame(true, op, j)
	return b[:len(b)-len(j)+keep]
}

// letters of the rpc server: the first ones are the core, all of them the full alphabet
func rpcLetters(full bool) []letter {
	l := []letter{
		open("a", "obj", "5", "open"),
		open("b", "obj", "7", "new"),
		open("b", "note", "", "open"),
		call("a", "add", "3", ""),
		call("b", "add", "4", "data"),
		call("a", "add", "-1", ""),
		call("a", "quiet", "", ""),
		call("b", "put", `{"text":"x","n":4}`, ""),
		call("a", "wrapped", `"w"`, ""),
		call("a", "nope", "1", ""),
		call("a", "boom", "", ""),
		call("a", "bye", "", ""),
		call("c", "get", "", ""),
		open("c", "obj", "-1", "open"),
		open("c", "obj", `"x"`, "open"),
		closing("a"), closing("b"), closing("c"), closing(""),
		ping("hi"),
		bad("a list", text(`[1,2]`)),
		end("not json", text(`{"channel":"a"`)),
		end("a close frame", wsconn.Frame(true, wsconn.Close, "\x03\xe8")),
	}
	if full {
		l = append(l, []letter{
			open("a", "note", "", "new"),
			open("a", "obj", "0", "open"),
			open("a", "Obj", "0", "open"),
			open("c", "nothing", "1", "open"),
			open("c", "", "1", "open"),
			open("c", "obj", "99", "open"),
			call("a", "get", "", ""),
			call("b", "get", "", ""),
			call("b", "count", "17", ""),
			call("a", "add", `"x"`, ""),
			call("a", "add", `{"a":1}`, ""),
			call("a", "odd", "", ""),
			call("a", "init", "1", ""),
			call("a", "Add", "1", ""),
			call("a", "", "1", ""),
			call("a", "two", "1", ""),
			call("a", "foo", "1", ""),
			call("a", "bare", "", ""),
			call("a", "private", "", ""),
			call("a", "note", "", ""),
			call("b", "put", `{"text":"y","more":[null]}`, "error"),
			call("b", "put", `[]`, ""),
			call("", "get", "", ""),
			ping(""), ping(strings.Repeat("p", 125)),
			nothing("pong", wsconn.Frame(true, wsconn.Pong, "hi")),
			bad("a number", text(`7`)),
			bad("a string", text(`"open"`)),
			bad("a list as channel", text(`{"channel":[5],"type":"open","path":"obj","data":1}`)),
			bad("a list as type", text(`{"channel":"a","type":["open"],"path":"obj","data":1}`)),
			bad("an empty object", text(`{}`)),
			{"an empty message", text(``), func(m *model) {
				if len(m.out) == 0 { // no message, or no frame
					m.ended = true
				} else {
					m.fatal("", "an empty message")
				}
			}},
			end("two values", text(`{"channel":"a","path":"quiet"} {"channel":"a","path":"quiet"}`)),
			end("bytes", wsconn.Frame(true, wsconn.Binary, "\xff\xfe\x00")),
			{"binary open", wsconn.Frame(true, wsconn.Binary, `{"channel":"a","type":"open","path":"note"}`), func(m *model) { m.chans["a"] = &inst{kind: "note"} }},
			{"long put", text(`{"channel":"b","path":"put","data":{"text":"` + strings.Repeat("l", 66000) + `"}}`), func(m *model) {
				call("b", "put", `{"text":"`+strings.Repeat("l", 66000)+`"}`, "").do(m)
			}},
			end("a close frame without status", wsconn.Frame(true, wsconn.Close, "")),
			end("an overlong ping", wsconn.Frame(true, wsconn.Ping, strings.Repeat("p", 126))),
			end("a continuation", wsconn.Frame(true, wsconn.Cont, `{"channel":"a","path":"quiet"}`)),
			end("a first fragment", wsconn.Frame(false, wsconn.Text, `{"channel":"a","path":"quiet"}`)),
			end("opcode 3", wsconn.Frame(true, 3, `{"channel":"a","path":"quiet"}`)),
			end("opcode 15", wsconn.Frame(true, 15, `{"channel":"a","path":"quiet"}`)),
		}...)
	}
	return l
}

// what may only come last: the peer is gone in the middle of it
func lasts() []letter {
	j := `{"channel":"a","path":"quiet"}`
	l := []letter{
		end("the end", nil),
		end("half a header", text(j)[:1]),
		end("half a key", text(j)[:4]),
		end("a header", torn(wsconn.Text, j, 0)),
		end("a torn message", torn(wsconn.Text, j+"   ", len(j))),
		end("a torn ping", torn(wsconn.Ping, "ping", 2)),
		end("a huge length", []byte{0x81, 0xff, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1, 2, 3, 4, '7'}),
	}
	return l
}

func data(x *mcrt.X, what string, conn *wsconn.Conn) (fs []frame, raw []string, pongs []string, ok bool) {
	ms, status, err := conn.Frames()
	if err != nil {
		x.Failf("garbled", "%s: %v", what, err)
		return
	}
	if !strings.Contains(status, "101") {
		x.Failf("handshake", "%s: handshake answered %q", what, status)
		return
	}
	closed := false
	for _, m := range ms {
		switch {
		case m.Op == wsconn.Close:
			closed = true
		case closed:
			x.Failf("after-close", "%s: %v sent after a close frame", what, m)
			return
		case m.Op == wsconn.Text:
			raw = append(raw, m.Data)
			var f frame
			_ = json.Unmarshal([]byte(m.Data), &f)
			fs = append(fs, f)
		case m.Op == wsconn.Pong:
			pongs = append(pongs, m.Data)
		default:
			x.Failf("odd-frame", "%s: %v sent", what, m)
			return
		}
	}
	return fs, raw, pongs, true
}

func (m *model) checkPongs(pongs []string) {
	all := append(append([]string{}, m.pings...), m.late...)
	if len(pongs) < len(m.pings) || len(pongs) > len(all) {
		m.fail("pings", "%d pongs for %d pings", len(pongs), len(all))
		return
	}
	for i, p := range pongs {
		if p != all[i] {
			m.fail("pings", "pong %q for ping %q", p, all[i])
		}
	}
}

func rpc(name string, depth int, full bool, chunks []int, bound int) *mcrt.Scenario {
	letters, last := rpcLetters(full), lasts()
	return talks(name, chunks, bound, func() (talk []letter) {
		for i := 0; i < depth; i++ {
			talk = append(talk, letters[mcrt.Choose(len(letters))])
		}
		return append(talk, last[mcrt.Choose(len(last))])
	})
}

// a conversation with many channels, opened, used, closed and used again in several orders
func manyChannels() *mcrt.Scenario {
	sizes := []int{3, 5, 8, 9, 16, 17, 33, 64, 65, 130}
	return talks("rpc, many channels", []int{0, 1000}, -1, func() (talk []letter) {
		n := sizes[mcrt.Choose(len(sizes))]
		turn := []int{1, n - 1, 7}[mcrt.Choose(3)] // the step from one channel to the next
		for n%turn == 0 && turn > 1 {
			turn++
		}
		same := mcrt.Choose(2) == 1 // all of one kind, or of two
		drop := 2 + mcrt.Choose(2)  // every second or third one is closed in between
		name := func(i int) string {
			if i%5 == 4 {
				return strings.Repeat("n", i) // one begins as another
			}
			return fmt.Sprint("c", i)
		}
		kind := func(i int) bool { return same || i%3 != 2 }
		round := func(f func(i int)) {
			for k, i := 0, 0; k < n; k, i = k+1, (i+turn)%n {
				f(i)
			}
		}
		use := func(i, k int) {
			if kind(i) {
				talk = append(talk, call(name(i), "add", fmt.Sprint(1000*k+i), ""))
			} else {
				talk = append(talk, call(name(i), "put", fmt.Sprintf(`{"text":"%d-%d"}`, k, i), ""))
			}
		}
		start := func(i int) {
			if kind(i) {
				talk = append(talk, open(name(i), "obj", fmt.Sprint(i*i+100), "open"))
			} else {
				talk = append(talk, open(name(i), "note", "", "new"))
			}
		}
		round(start)
		round(func(i int) { use(i, 1) })
		round(func(i int) {
			if i%drop == 1 {
				talk = append(talk, closing(name(i)))
			}
		})
		round(func(i int) {
			if i%drop != 1 {
				use(i, 2)
			}
		})
		round(func(i int) {
			if i%drop == 1 && i%2 == 1 {
				start(i) // anew, under its old name
			}
		})
		round(func(i int) {
			if i%drop != 1 || i%2 == 1 {
				use(i, 3)
			}
		})
		if drop == 3 && n > 4 {
			use(4, 4)
		}
		return append(talk, call("nobody", "add", "1", ""), end("the end", nil))
	})
}

func talks(name string, chunks []int, bound int, gen func() []letter) *mcrt.Scenario {
	return &mcrt.Scenario{Name: name, MaxBound: bound, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		mute()
		conn := wsconn.New()
		if len(chunks) > 0 {
			conn.Chunk = chunks[mcrt.Choose(len(chunks))]
		}
		talk := gen()
		m := &model{x: x, chans: map[string]*inst{}}
		for _, l := range talk {
			m.what += l.name + "; "
			conn.Push(l.raw)
			if len(l.raw) > 1000 {
				conn.Chunk = 0
			}
		}
		conn.End(wsconn.EOF)
		book := &lin.Book{}
		c, cf := ctx.Background()
		defer cf(nil)
		h := &ws.RpcHandler{}
		if err := h.Register(c, &Obj{Book: book, Base: 10, hidden: 3, sum: 0}); err != nil {
			x.Failf("register", "%v", err)
		}
		if err := h.Register(c, Note{Book: book, Title: "draft"}); err != nil {
			x.Failf("register", "by value: %v", err)
		}
		if p := wsconn.Serve(h.Server(), c, conn); p != nil && p != "init panics" {
			m.fail("panic", "the server panics: %v", p)
		}
		if !conn.Closed() {
			m.fail("open", "the connection stays open")
		}
		return func(x *mcrt.X, i *mcrt.Info) {
			mcrt.DefaultJudge(&mcrt.Scenario{}, x, i)
			fs, _, pongs, ok := data(x, m.what, conn)
			if !ok || m.bad {
				return
			}
			m.out = fs
			sent := len(fs)
			for _, l := range talk {
				if m.ended {
					if strings.HasPrefix(l.name, "ping ") {
						n := len(m.pings)
						l.do(m)
						m.late, m.pings = append(m.late, m.pings[n:]...), m.pings[:n]
					}
					continue
				}
				l.do(m)
				if m.bad {
					return
				}
			}
			if len(m.out) > 0 {
				m.fail("extra", "%s sent besides the answers", m.out[0])
			}
			var calls []string
			for _, v := range book.All() {
				calls = append(calls, v.(string))
			}
			if m.loose && len(calls) > len(m.calls) {
				calls = calls[:len(m.calls)]
			}
			if strings.Join(calls, ";") != strings.Join(m.calls, ";") {
				m.fail("calls", "calls %q, want %q", calls, m.calls)
			}
			m.checkPongs(pongs)
			x.Outf("%d %d", sent, len(m.calls))
		}
	}}
}

// ---------------------------------------------------------------- generic handlers

// messages of every length around those where something changes: the forms of the length, buffers
func lengths() *mcrt.Scenario {
	var ns []int
	for _, r := range [][2]int{{2, 140}, {250, 260}, {507, 515}, {1020, 1028}, {2044, 2052}, {4080, 4104}, {8185, 8200}, {16380, 16390}, {32764, 32772}, {65520, 65545}, {131068, 131076}, {1 << 20, 1<<20 + 1}} {
		for n := r[0]; n <= r[1]; n++ {
			ns = append(ns, n)
		}
	}
	return &mcrt.Scenario{Name: "generic, every length", MaxBound: -1, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		mute()
		n := ns[mcrt.Choose(len(ns))]
		fill := []string{"x", "é", `\n`}[mcrt.Choose(3)]
		conn := wsconn.New()
		conn.Chunk = []int{0, 4096, 1000}[mcrt.Choose(3)]
		long := `"` + strings.Repeat(fill, (n-2)/len(fill))
		for len(long) < n-1 {
			long += "y"
		}
		long += `"`
		// another comes in its wake, so whatever is left or taken too much shows
		talk := []string{"1", long, "2", long, `{"a":` + long + `}`, "3"}
		for _, t := range talk {
			conn.Push(text(t))
		}
		conn.End(wsconn.EOF)
		c, cf := ctx.Background()
		defer cf(nil)
		h := ws.Handler{OnData: func(c ctx.C, conn *ws.Conn, n enc.Node) error { return conn.Send(c, n) }}
		if p := wsconn.Serve(h.Server(), c, conn); p != nil {
			x.Failf("panic", "length %d: the server panics: %v", n, p)
		}
		return func(x *mcrt.X, i *mcrt.Info) {
			mcrt.DefaultJudge(&mcrt.Scenario{}, x, i)
			_, raw, _, ok := data(x, fmt.Sprintf("messages of %d bytes", n), conn)
			if !ok {
				return
			}
			if len(raw) == len(talk)+1 && strings.Contains(raw[len(talk)], "disconnect") {
				raw = raw[:len(talk)]
			}
			if len(raw) != len(talk) {
				x.Failf("lengths", "%d of %d messages of %d bytes came back", len(raw), len(talk), n)
				return
			}
			for k := range talk {
				var a, b any
				if json.Unmarshal([]byte(raw[k]), &a) != nil || json.Unmarshal([]byte(talk[k]), &b) != nil || !reflect.DeepEqual(a, b) {
					x.Failf("lengths", "message %d of %d bytes came back as %d bytes: %.60q", k, len(talk[k]), len(raw[k]), raw[k])
				}
			}
			x.Outf("length %d", len(fmt.Sprint(n)))
		}
	}}
}

func generic(name string, depth, bound int) *mcrt.Scenario {
	msgs := []string{`"unfit"`, `1`, `"x"`, `null`, `[1,[2]]`, `{"a":{"b":"é"}}`, ` true `, `"fail"`, `"plain"`, `"close"`, `"` + strings.Repeat("z", 70000) + `"`}
	letters := []letter{}
	for _, j := range msgs {
		j := j
		letters = append(letters, letter{j, text(j), nil})
	}
	letters = append(letters, letter{"7 in binary", wsconn.Frame(true, wsconn.Binary, "7"), nil}, ping("p"), nothing("pong", wsconn.Frame(true, wsconn.Pong, "")),
		end("not json", text("nope")), end("opcode 7", wsconn.Frame(true, 7, "1")), end("fragment", wsconn.Frame(false, wsconn.Text, "1")),
		end("continuation", wsconn.Frame(true, wsconn.Cont, "1")), end("close frame", wsconn.Frame(true, wsconn.Close, "\x03\xe9")))
	last := lasts()
	return &mcrt.Scenario{Name: name, MaxBound: bound, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		mute()
		// how the connection starts: no OnConnect, one that greets, one that refuses
		mode := mcrt.Choose(4)
		conn := wsconn.New()
		m := &model{x: x, what: fmt.Sprintf("mode %d: ", mode)}
		var talk []letter
		for i := 0; i < depth; i++ {
			talk = append(talk, letters[mcrt.Choose(len(letters))])
		}
		talk = append(talk, last[mcrt.Choose(len(last))])
		for _, l := range talk {
			n := l.name
			if len(n) > 20 {
				n = n[:20]
			}
			m.what += n + "; "
			conn.Push(l.raw)
		}
		conn.End(wsconn.EOF)
		book := &lin.Book{}
		c, cf := ctx.Background()
		defer cf(nil)
		type key struct{}
		sids := map[string]bool{}
		var kept ctx.C
		h := ws.Handler{OnData: func(c ctx.C, conn *ws.Conn, n enc.Node) error {
			kept = c
			sids[conn.SID()] = true
			if mode == 1 && c.Value(key{}) != "v" {
				x.Failf("context", "the context of OnConnect does not reach OnData")
			}
			j := string(enc.JSON{}.Encode(c, n))
			book.Add(j)
			switch j {
			case `"fail"`:
				return ctx.NewErrorf(c, "it failed")
			case `"plain"`:
				return errors.New("it failed")
			case `"close"`:
				return conn.Close(c, ws.GOING_AWAY)
			case `"unfit"`: // what can't be sent is an error for the sender, and nothing goes out
				for _, v := range []any{make(chan int), map[string]any{"x": func() {}}, []any{1, make(chan int)}, struct{ C chan int }{}} {
					if err := conn.Send(c, v); err == nil {
						x.Failf("unfit", "sending a %T is no error", v)
					}
				}
				return nil
			}
			return conn.Send(c, n)
		}}
		if mode > 0 {
			h.OnConnect = func(c ctx.C, conn *ws.Conn) (ctx.C, error) {
				sids[conn.SID()] = true
				if mode == 3 {
					return c, errors.New("refused")
				}
				c = ctx.C(ctx.WithValue(c, key{}, "v"))
				if mode == 2 {
					return c, conn.Send(c, map[string]any{"hello": 1})
				}
				return c, nil
			}
		}
		if p := wsconn.Serve(h.Server(), c, conn); p != nil {
			m.fail("panic", "the server panics: %v", p)
		}
		if !conn.Closed() {
			m.fail("open", "the connection stays open")
		}
		if kept != nil && kept.Err() == nil {
			m.fail("context-alive", "the context is not cancelled with the end of the connection")
		}
		if c.Err() != nil {
			m.fail("context-cut", "the server's context is cancelled with the end of one connection")
		}
		if sids[""] || len(sids) > 1 {
			m.fail("sid", "connection ids %v", sids)
		}
		return func(x *mcrt.X, i *mcrt.Info) {
			mcrt.DefaultJudge(&mcrt.Scenario{}, x, i)
			fs, raw, pongs, ok := data(x, m.what, conn)
			if !ok || m.bad {
				return
			}
			want := []string{}
			calls := []string{}
			if mode == 2 {
				want = append(want, `{"hello":1}`)
			}
			disc := false
			m.ended = mode == 3
			for _, l := range talk {
				switch {
				case strings.HasPrefix(l.name, "ping "):
					if m.ended {
						m.late = append(m.late, "p")
					} else {
						m.pings = append(m.pings, "p")
					}
				case m.ended || l.name == "pong":
				case l.do != nil:
					m.ended = true
				default:
					j := strings.TrimSpace(l.name)
					if l.name == "7 in binary" {
						j = "7"
					}
					calls = append(calls, j)
					switch j {
					case `"fail"`, `"plain"`:
						disc, m.ended = true, true
					case `"close"`:
						m.ended, m.loose = true, true
					case `"unfit"`:
					default:
						want = append(want, j)
					}
				}
			}
			var got []string
			for _, v := range book.All() {
				got = append(got, v.(string))
			}
			if m.loose && len(got) > len(calls) {
				got = got[:len(calls)]
			}
			if strings.Join(got, ";") != strings.Join(calls, ";") {
				m.fail("calls", "messages %.200q, want %.200q", got, calls)
				return
			}
			if n := len(raw); n > 0 && n == len(want)+1 && (fs[n-1].Type == "disconnect" || fs[n-1].Type == "error") && m.text(&fs[n-1]) != "" && m.ended && mode != 3 && !m.loose {
				if disc && !strings.Contains(m.text(&fs[n-1]), "it failed") {
					m.fail("wrong-refusal", "the handler's error is told as %s", fs[n-1])
				}
				raw, disc = raw[:n-1], false
			}
			if disc {
				m.fail("missing-refusal", "the handler's error is not told: %.300q", raw)
			} else if strings.Join(raw, ";") != strings.Join(want, ";") {
				m.fail("answers", "sent %.300q, want %.300q", raw, want)
			}
			m.checkPongs(pongs)
			x.Outf("%d %d %d", mode, len(raw), len(calls))
		}
	}}
}

func main() {
	mc.Main("C24", mc.Options{QuickBound: 0, ThoroughBound: 1,
		Rule:   "every conversation of up to the stated number of client frames over an alphabet of opens, calls, closes, malformed messages, control frames and protocol violations on three channels and two kinds of objects, cut at every kind of place, through the real websocket server; the same for generic handlers with every kind of OnConnect; conversations over up to 130 channels in several orders; messages of every length around the powers of two up to 1 MB; the server's frames, the calls made and what is left behind are judged by a model",
		Assume: []string{"a protocol violation of the client (unknown channel, path or method, a message which is no frame, a panic of a method) may end the connection after the client was told", "fragmented messages are not supported and end the connection"},
	}, func() []*mcrt.Scenario {
		thorough := mc.Thorough()
		s := []*mcrt.Scenario{
			rpc("rpc, core, three frames", 3, false, nil, -1),
			rpc("rpc, all, two frames", 2, true, nil, -1),
			rpc("rpc, all, one frame, any schedule", 1, true, []int{1, 3, 0}, 1),
			manyChannels(),
			lengths(),
			generic("generic, two messages", 2, -1),
			generic("generic, one message, any schedule", 1, 1),
		}
		if thorough {
			s = append(s, rpc("rpc, all, three frames", 3, true, nil, -1), rpc("rpc, core, four frames", 4, false, nil, -1), generic("generic, three messages", 3, -1))
		}
		return s
	})
}
