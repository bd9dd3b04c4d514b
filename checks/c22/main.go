// C22: every call of the client against every answer, with faults at every byte, through a recording transport and through
// the real one over connections in memory.
package main

import (
	"bytes"
	"compress/gzip"
	"context"
	"errors"
	"fmt"
	"io"
	"log/slog"
	"math"
	"net"
	gohttp "net/http"
	"net/url"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Aize-Public/forego/api"
	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
	"github.com/Aize-Public/forego/http"

	"verif.local/mc/lib/vk"
)

// ---------------------------------------------------------------- recording transport

type answer struct {
	status int
	body   string
	hdr    gohttp.Header
	err    error // of the exchange
	failAt int   // the body fails after that many bytes, -1 never
	close  error
	length bool // Content-Length known
}

func (a answer) String() string {
	if a.err != nil {
		return "transport error " + a.err.Error()
	}
	return fmt.Sprintf("%d %q failing at %d, close error %v", a.status, a.body, a.failAt, a.close)
}

type body struct {
	r      io.Reader
	failAt int
	n      int
	closed atomic.Int32
	err    error
	late   bool
}

var errBody = errors.New("body torn")
var errNet = errors.New("network down")

func (b *body) Read(p []byte) (int, error) {
	if b.closed.Load() > 0 {
		b.late = true
		return 0, errors.New("read after close")
	}
	if b.failAt >= 0 && len(p) > b.failAt-b.n {
		p = p[:b.failAt-b.n]
		if len(p) == 0 {
			return 0, errBody
		}
	}
	n, err := b.r.Read(p)
	b.n += n
	return n, err
}

func (b *body) Close() error { b.closed.Add(1); return b.err }

type rec struct {
	method, url, body string
	hdr               gohttp.Header
}

// recorder answers each worker's requests by the case in the context
type recorder struct{}

type caseKey struct{}

type exchange struct {
	a    answer
	reqs []rec
	b    []*body
}

func (recorder) RoundTrip(r *gohttp.Request) (*gohttp.Response, error) {
	x := r.Context().Value(caseKey{}).(*exchange)
	q := rec{method: r.Method, url: r.URL.String(), hdr: r.Header.Clone()}
	if r.Body != nil {
		b, _ := io.ReadAll(r.Body)
		r.Body.Close()
		q.body = string(b)
	}
	x.reqs = append(x.reqs, q)
	if x.a.err != nil {
		return nil, x.a.err
	}
	b := &body{r: strings.NewReader(x.a.body), failAt: x.a.failAt, err: x.a.close}
	x.b = append(x.b, b)
	h := x.a.hdr.Clone()
	if h == nil {
		h = gohttp.Header{}
	}
	return &gohttp.Response{StatusCode: x.a.status, Status: fmt.Sprintf("%d %s", x.a.status, gohttp.StatusText(x.a.status)), Header: h, Body: b, Request: r, ContentLength: -1, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}, nil
}

// ---------------------------------------------------------------- operations

type Op struct {
	R   api.Request `url:"/op?x=1"`
	S   string      `api:"in" json:"s"`
	I   int64       `api:"in" json:"i"`
	Out string      `api:"out" json:"out"`
	B   []int       `api:"both" json:"b"`
	Not string
}

func (*Op) Do(ctx.C) error { return nil }

type Abs struct {
	R   api.Request `url:"http://other.host:81/abs"`
	Out string      `api:"out" json:"out"`
}

func (*Abs) Do(ctx.C) error { return nil }

type NoURL struct {
	Out string `api:"out" json:"out"`
}

func (*NoURL) Do(ctx.C) error { return nil }

type BadIn struct {
	R  api.Request `url:"/bad"`
	In chan int    `api:"in" json:"in"`
}

func (*BadIn) Do(ctx.C) error { return nil }

func withCase(x *exchange) ctx.C { return ctx.WithValue(ctx.TODO(), caseKey{}, x) }

var call = []string{"Get", "Post", "Post nothing", "API", "API absolute", "Do"}

var base, _ = url.Parse("http://base.host:80/prefix/")

// run one call
func run(c ctx.C, which int, op *Op, abs *Abs) (data []byte, err error) {
	cli := http.Client{BaseUrl: base}
	err = vk.Catch(func() (err error) {
		switch which {
		case 0:
			data, err = cli.Get(c, "http://h/get?a=b%20c#f")
		case 1:
			data, err = cli.Post(c, "http://h/post", []byte(`{"x":"<é>"}`))
		case 2:
			data, err = cli.Post(c, "http://h/post", nil)
		case 3:
			err = cli.API(c, op)
		case 4:
			err = cli.API(c, abs)
		case 5:
			var r *gohttp.Request
			r, err = http.NewRequest(c, "PUT", "http://h/do", strings.NewReader("body"))
			if err != nil {
				return err
			}
			r.Header.Set("X-Mine", "1")
			var res *gohttp.Response
			res, err = cli.Do(r)
			if res != nil && res.Body != nil { // what it gives is the caller's
				d, e := io.ReadAll(res.Body)
				res.Body.Close()
				if err == nil {
					data, err = d, e
				}
			}
		}
		return err
	})
	return
}

func recorded(k *vk.Check) {
	gohttp.DefaultTransport = recorder{}
	json := `{"out":"done","b":[3,4]}`
	var answers []answer
	for s := 200; s < 600; s++ {
		for _, b := range []string{"", "x", json, `{"error":"no","tracking":"t"}`} {
			answers = append(answers, answer{status: s, body: b, failAt: -1})
		}
		answers = append(answers, answer{status: s, body: json, failAt: 3}, answer{status: s, body: json, failAt: -1, close: errNet})
	}
	for i := 0; i <= len(json); i++ {
		answers = append(answers, answer{status: 200, body: json, failAt: i}, answer{status: 200, body: json[:i], failAt: -1})
	}
	big := strings.Repeat("0123456789", 3000)
	for _, i := range []int{-1, 0, 1, 511, 512, 513, 4096, 29999, 30000} {
		answers = append(answers, answer{status: 200, body: big, failAt: i})
	}
	for _, b := range []string{"null", "[]", "3", `{"out":3}`, `{"out":[]}`, `{"b":"x"}`, `{"out":"done"}`, `{"out":"done","b":[3,4]}x`, `{}`, `{"s":"evil","i":9,"Not":"evil","out":"o"}`} {
		answers = append(answers, answer{status: 200, body: b, failAt: -1})
	}
	for _, e := range []error{errNet, io.EOF, context.DeadlineExceeded, &net.OpError{Op: "dial", Err: errNet}} {
		answers = append(answers, answer{err: e})
	}
	k.Par(int64(len(answers)*len(call)), func(w *vk.Worker, i int64) {
		w.Ev++
		a := answers[i/int64(len(call))]
		which := int(i % int64(len(call)))
		what := fmt.Sprintf("%s answered %v", call[which], a)
		w.Note(what)
		x := &exchange{a: a}
		op := &Op{S: "in<&>", I: math.MaxInt64, Out: "before", B: []int{1}, Not: "mine"}
		abs := &Abs{Out: "before"}
		data, err := run(withCase(x), which, op, abs)
		fail := func(key, f string, args ...any) {
			w.Violate(key+":"+call[which], what+": "+fmt.Sprintf(f, args...), what)
		}
		if p, ok := vk.IsPanic(err); ok {
			fail("panic:"+p.Site(), "panic: %v", p.Val)
			return
		}
		// the request
		if len(x.reqs) != 1 {
			fail("requests", "%d requests", len(x.reqs))
			return
		}
		want := []rec{
			{"GET", "http://h/get?a=b%20c#f", "", nil}, {"POST", "http://h/post", `{"x":"<é>"}`, nil}, {"POST", "http://h/post", "", nil},
			{"POST", "http://base.host:80/op?x=1", "", nil}, {"POST", "http://other.host:81/abs", "", nil}, {"PUT", "http://h/do", "body", nil},
		}[which]
		q := x.reqs[0]
		if q.method != want.method || q.url != want.url {
			fail("request", "sent %s %s", q.method, q.url)
		}
		switch which {
		case 3:
			var m struct {
				S string
				I int64
				B []int
			}
			var all map[string]any
			if e1, e2 := jsonDecode(q.body, &m), jsonDecode(q.body, &all); e1 != nil || e2 != nil || m.S != "in<&>" || m.I != math.MaxInt64 || !reflect.DeepEqual(m.B, []int{1}) || len(all) != 3 {
				fail("request-body", "sent %s", q.body)
			}
		case 4:
			if q.body != "{}" && q.body != "null" {
				fail("request-body", "sent %s", q.body)
			}
		default:
			if q.body != want.body {
				fail("request-body", "sent %q", q.body)
			}
		}
		if which == 1 && q.hdr.Get("Content-Type") != "application/json" || which == 5 && q.hdr.Get("X-Mine") != "1" {
			fail("request-header", "sent %v", q.hdr)
		}
		// nothing left open
		for _, b := range x.b {
			if b.closed.Load() == 0 {
				fail("body-open", "the response body is not closed")
			}
			if b.late {
				fail("read-after-close", "the body is read after it was closed")
			}
		}
		isAPI := which == 3 || which == 4
		if op.S != "in<&>" || op.I != math.MaxInt64 || op.Not != "mine" {
			fail("inputs-changed", "the object has become %+v", op)
		}
		switch {
		case a.err != nil:
			if err == nil || !errors.Is(err, a.err) && !strings.Contains(err.Error(), a.err.Error()) {
				fail("transport-error", "error %v", err)
			}
			if data != nil || isAPI && (op.Out != "before" || abs.Out != "before") {
				fail("data-with-error", "%q with %v", data, err)
			}
		case a.status > 204 && a.status < 300 || a.status > 200 && a.status < 204:
			if err != nil && http.ErrorCode(err, -1) != a.status {
				fail("status", "error %v", err)
			}
		case a.status >= 300:
			if err == nil {
				fail("status-success", "no error")
			} else if got := http.ErrorCode(err, -1); got != a.status && a.status/100 != 3 {
				fail("status", "error %v carries %d", err, got)
			}
			if data != nil || isAPI && (op.Out != "before" || abs.Out != "before") {
				fail("data-with-error", "%q with %v", data, err)
			}
		case !isAPI:
			if a.failAt >= 0 {
				if err == nil || !errors.Is(err, errBody) {
					fail("torn", "%d bytes, error %v", len(data), err)
				}
			} else if err != nil || string(data) != a.body {
				fail("body", "%q, %v", data, err)
			}
		case a.status == 204:
			if err != nil {
				fail("no-content", "error %v", err)
			}
		default:
			w.Nt++
			out, b, ok := expectAPI(a)
			if ok != (err == nil) && !(which == 4 && a.failAt < 0) {
				fail("api-error:"+a.body, "error %v", err)
			} else if err == nil && which == 3 {
				if op.Out != out || !reflect.DeepEqual(op.B, b) {
					fail("api-value", "outputs %q %v, want %q %v", op.Out, op.B, out, b)
				}
			}
		}
		w.Out(fmt.Sprintf("%s %d %v", call[which], a.status, err == nil))
	})
	// what can't be sent is an error and nothing is sent
	for name, f := range map[string]func(c ctx.C) error{
		"bad url get":      func(c ctx.C) error { _, err := http.Client{}.Get(c, "http://[::1"); return err },
		"bad url post":     func(c ctx.C) error { _, err := http.Client{}.Post(c, "http://a b/", nil); return err },
		"no url":           func(c ctx.C) error { return http.Client{BaseUrl: base}.API(c, &NoURL{}) },
		"no url nor base":  func(c ctx.C) error { return http.Client{}.API(c, &NoURL{}) },
		"input of no JSON": func(c ctx.C) error { return http.Client{BaseUrl: base}.API(c, &BadIn{In: make(chan int)}) },
		"bad method":       func(c ctx.C) error { _, err := http.NewRequest(c, "A B", "http://h/", nil); return err },
	} {
		k.Evals(1)
		x := &exchange{a: answer{status: 200, body: "{}", failAt: -1}}
		err := vk.Catch(func() error { return f(withCase(x)) })
		if p, ok := vk.IsPanic(err); ok {
			k.Violate("unsendable-panic:"+name, fmt.Sprintf("%s: panic: %v", name, p.Val), name)
		} else if err == nil || len(x.reqs) > 0 {
			k.Violate("unsendable:"+name, fmt.Sprintf("%s: error %v and %d requests", name, err, len(x.reqs)), name)
		}
	}
	rebase(k)
	values(k)
}

// rebase: relative and absolute paths on every base
func rebase(k *vk.Check) {
	for _, t := range [][3]string{
		{"", "http://a/x", "http://a/x"}, {"http://b:8/", "/x", "http://b:8/x"}, {"http://b/p/q", "x", "http://b/p/x"}, {"http://b/p/q/", "x", "http://b/p/q/x"},
		{"https://b/p?z=1", "/x?y=2", "https://b/x?y=2"}, {"http://b/", "//c/x", "http://c/x"}, {"http://u:p@b/", "/x", "http://u:p@b/x"}, {"http://b/", "/a%2Fb", "http://b/a%2Fb"},
	} {
		k.Evals(1)
		x := &exchange{a: answer{status: 204, failAt: -1}}
		st := reflect.StructOf([]reflect.StructField{{Name: "R", Type: reflect.TypeOf(api.Request{}), Tag: reflect.StructTag(fmt.Sprintf("url:%q", t[1]))}})
		_ = st
		cli := http.Client{}
		if t[0] != "" {
			cli.BaseUrl, _ = url.Parse(t[0])
		}
		err := vk.Catch(func() error { return cli.API(withCase(x), doable{reflect.New(st).Interface()}.as(t[1])) })
		if err != nil || len(x.reqs) != 1 || x.reqs[0].url != t[2] {
			got := ""
			if len(x.reqs) > 0 {
				got = x.reqs[0].url
			}
			k.Violate("rebase:"+t[0]+" "+t[1], fmt.Sprintf("%q on %q: %q (%v), want %q", t[1], t[0], got, err, t[2]), t)
		}
	}
}

// values survive the way to a server and back
type Echo struct {
	R  api.Request       `url:"/echo"`
	S  string            `api:"both"`
	F  float64           `api:"both"`
	I  int64             `api:"both"`
	U  uint64            `api:"both"`
	B  []byte            `api:"both"`
	T  time.Time         `api:"both"`
	D  time.Duration     `api:"both"`
	M  map[string]string `api:"both"`
	P  *string           `api:"both"`
	L  []any             `api:"both"`
	Ok bool              `api:"both"`
}

func (*Echo) Do(ctx.C) error { return nil }

type server struct{ h api.Server[*Echo] }

// RoundTrip is a server: what it receives it sends back
func (s server) RoundTrip(r *gohttp.Request) (*gohttp.Response, error) {
	c := r.Context()
	j := &api.JSON{}
	if err := j.ReadFrom(c, r.Body); err != nil {
		return nil, err
	}
	o, err := s.h.Recv(c, j)
	if err != nil {
		return nil, err
	}
	out := &api.JSON{}
	if err := s.h.Send(c, o, out); err != nil {
		return nil, err
	}
	b, err := jsonEncode(c, out)
	if err != nil {
		return nil, err
	}
	return &gohttp.Response{StatusCode: 200, Status: "200 OK", Header: gohttp.Header{}, Body: io.NopCloser(bytes.NewReader(b)), Request: r}, nil
}

func values(k *vk.Check) {
	c := ctx.TODO()
	h, err := api.NewServer(c, &Echo{})
	if err != nil {
		k.Violate("echo", err.Error(), nil)
		return
	}
	gohttp.DefaultTransport = server{h}
	defer func() { gohttp.DefaultTransport = recorder{} }()
	str := []string{"", "a", "é😀", "<>&\u2028", "\"\\/\b\n\x00\x7f", strings.Repeat("x", 70000)}
	fl := []float64{0, 1, -1, 0.1, 1e21, 1e-7, math.MaxFloat64, math.SmallestNonzeroFloat64, 1 << 60, 123456789.125}
	in := []int64{0, 1, -1, math.MaxInt64, math.MinInt64, 1<<53 + 1}
	un := []uint64{0, math.MaxUint64, 1 << 63}
	by := [][]byte{nil, []byte("abc")}
	ti := []time.Time{{}, time.Unix(1700000000, 0).UTC(), time.Date(2024, 2, 29, 23, 59, 59, 123456789, time.UTC)}
	du := []time.Duration{0, time.Second, -time.Hour, 90 * time.Minute}
	for i := 0; i < 200; i++ {
		k.Evals(1)
		e := &Echo{S: str[i%len(str)], F: fl[i%len(fl)], I: in[i%len(in)], U: un[i%len(un)], B: by[i%len(by)], T: ti[i%len(ti)], D: du[i%len(du)], Ok: i%2 == 0}
		if i%3 > 0 {
			e.M = map[string]string{str[i/2%len(str)]: str[i/3%len(str)], "k": "v"}
			e.P = &str[i/5%len(str)]
			e.L = []any{"x", nil, true, []any{}, map[string]any{"a": "b"}}
		}
		o := *e
		e2 := *e
		if err := vk.Catch(func() error { return http.Client{BaseUrl: base}.API(c, &o) }); err != nil {
			k.Violate(fmt.Sprintf("echo-error:%d", i), fmt.Sprintf("case %d: %v", i, err), i)
			continue
		}
		for f := 1; f < reflect.TypeOf(o).NumField(); f++ {
			a, b := reflect.ValueOf(o).Field(f).Interface(), reflect.ValueOf(e2).Field(f).Interface()
			if ta, ok := a.(time.Time); ok && ta.Equal(b.(time.Time)) {
				continue
			}
			if fmt.Sprintf("%#v", deref(a)) != fmt.Sprintf("%#v", deref(b)) {
				k.Violate("echo-value:"+reflect.TypeOf(o).Field(f).Name, fmt.Sprintf("case %d: %s %#v came back as %#v", i, reflect.TypeOf(o).Field(f).Name, deref(b), deref(a)), i)
			}
		}
	}
}

func deref(v any) any {
	if p, ok := v.(*string); ok && p != nil {
		return *p
	}
	return v
}

// ---------------------------------------------------------------- the real transport over connections in memory

type wire struct {
	mu     sync.Mutex
	script func(c net.Conn, n int) // n-th connection
	conns  []net.Conn
	open   atomic.Int32
	wg     sync.WaitGroup
}

type countConn struct {
	net.Conn
	once sync.Once
	w    *wire
}

func (c *countConn) Close() error {
	c.once.Do(func() { c.w.open.Add(-1) })
	return c.Conn.Close()
}

func (w *wire) dial(context.Context, string, string) (net.Conn, error) {
	a, b := net.Pipe()
	w.mu.Lock()
	n := len(w.conns)
	w.conns = append(w.conns, b)
	w.mu.Unlock()
	w.open.Add(1)
	w.wg.Add(1)
	go func() { defer w.wg.Done(); w.script(b, n) }()
	return &countConn{Conn: a, w: w}, nil
}

type wireTransport struct{}

type wireKey struct{}

// RoundTrip uses the transport of the case
func (wireTransport) RoundTrip(r *gohttp.Request) (*gohttp.Response, error) {
	return r.Context().Value(wireKey{}).(gohttp.RoundTripper).RoundTrip(r)
}

func readRequest(c net.Conn) bool {
	// enough of a parser: headers, then Content-Length
	var b []byte
	p := make([]byte, 1)
	for !bytes.HasSuffix(b, []byte("\r\n\r\n")) {
		if _, err := c.Read(p); err != nil {
			return false
		}
		b = append(b, p[0])
	}
	n := 0
	for _, l := range strings.Split(string(b), "\r\n") {
		if v, ok := strings.CutPrefix(l, "Content-Length: "); ok {
			fmt.Sscan(v, &n)
		}
	}
	_, err := io.ReadFull(c, make([]byte, n))
	return err == nil
}

type wireCase struct {
	name     string
	text     string
	need     int  // bytes after which the response is complete (-1: never known)
	headLen  int  // bytes of the header section
	byClose  bool // the end of the connection ends the body
	code     int
	wantBody string
}

func chunk(parts ...string) string {
	s := ""
	for _, p := range parts {
		s += fmt.Sprintf("%x\r\n%s\r\n", len(p), p)
	}
	return s + "0\r\n\r\n"
}

func wires() (l []wireCase) {
	js := `{"out":"done","b":[3,4]}`
	var z bytes.Buffer
	zw := gzip.NewWriter(&z)
	_, _ = zw.Write([]byte(js))
	zw.Close()
	add := func(name, head, body string, code int, want string, byClose bool) {
		h := head + "\r\n\r\n"
		l = append(l, wireCase{name, h + body, len(h) + len(body), len(h), byClose, code, want})
	}
	add("length", fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: %d", len(js)), js, 200, js, false)
	add("chunked", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked", chunk(js[:5], js[5:]), 200, js, false)
	add("by close", "HTTP/1.1 200 OK\r\nConnection: close", js, 200, js, true)
	add("compressed", fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\nContent-Length: %d", z.Len()), z.String(), 200, js, false)
	add("compressed by close", "HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\nConnection: close", z.String(), 200, js, true)
	add("no content", "HTTP/1.1 204 No Content", "", 204, "", false)
	add("not found", "HTTP/1.1 404 Not Found\r\nContent-Length: 9", "not found", 404, "", false)
	add("not found chunked", "HTTP/1.1 404 Not Found\r\nTransfer-Encoding: chunked", chunk("not", "found"), 404, "", false)
	add("internal", "HTTP/1.1 500 Internal\r\nContent-Length: 30000", strings.Repeat("e", 30000), 500, "", false)
	add("continue", fmt.Sprintf("HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: %d", len(js)), js, 200, js, false)
	return
}

// at every byte the connection ends, or nothing more comes and the caller gives up
func cut(w *vk.Worker, wc wireCase, at int, which int, stall bool) {
	w.Ev++
	what := fmt.Sprintf("%s, response %s, %s after %d of %d bytes", call[which], wc.name, map[bool]string{true: "silence", false: "end"}[stall], at, len(wc.text))
	w.Note(what)
	fail := func(key, f string, args ...any) {
		w.Violate(key+":"+call[which]+":"+wc.name, what+": "+fmt.Sprintf(f, args...), what)
	}
	cc, cancel := context.WithCancel(context.Background())
	defer cancel()
	wr := &wire{}
	release := make(chan bool)
	wr.script = func(c net.Conn, n int) {
		defer c.Close()
		first := true
		for readRequest(c) {
			if !first && n == 0 {
				break
			}
			first = false
			if _, err := c.Write([]byte(wc.text[:at])); err != nil {
				return
			}
			if at < len(wc.text) || wc.byClose {
				if stall && at < len(wc.text) {
					cancel()
					select {
					case <-release:
					case <-time.After(20 * time.Second):
					}
				}
				return
			}
		}
	}
	tr := &gohttp.Transport{DialContext: wr.dial, MaxIdleConns: 1}
	c := ctx.WithValue(ctx.C(cc), wireKey{}, gohttp.RoundTripper(tr))
	op := &Op{Out: "before"}
	type result struct {
		data []byte
		err  error
	}
	done := make(chan result, 1)
	go func() {
		d, err := run(c, which, op, &Abs{})
		done <- result{d, err}
	}()
	var r result
	select {
	case r = <-done:
	case <-time.After(15 * time.Second):
		fail("hang", "the call does not return")
		close(release)
		return
	}
	close(release)
	zipped := strings.HasPrefix(wc.name, "compressed")
	full := at == len(wc.text) || wc.byClose && at >= wc.headLen && !stall && !(zipped && at > wc.headLen) // half a stream is noticed
	isAPI := which == 3
	if p, ok := vk.IsPanic(r.err); ok {
		fail("panic:"+p.Site(), "panic: %v", p.Val)
	}
	if which == 0 && at == 0 {
		_ = full // a GET may be tried again by the transport
	}
	switch {
	case zipped && wc.byClose && at == wc.headLen: // nothing at all may be taken for an empty body
	case full && wc.code < 300:
		switch {
		case isAPI && wc.byClose && at > wc.headLen && at < len(wc.text): // half a document
			if r.err == nil || op.Out != "before" {
				fail("half", "half a document gives %+v (%v)", op, r.err)
			}
		case isAPI:
			if r.err != nil || wc.code == 200 && at == len(wc.text) && (op.Out != "done" || fmt.Sprint(op.B) != "[3 4]") {
				fail("whole", "error %v, %+v", r.err, op)
			}
		case r.err != nil || string(r.data) != wc.wantBody[:len(wc.wantBody)-(len(wc.text)-at)]:
			fail("whole", "%q, error %v", r.data, r.err)
		}
	case wc.code >= 300 && at >= wc.headLen: // the status is there, the rest does not matter
		if r.err == nil || http.ErrorCode(r.err, -1) != wc.code && !(stall && errors.Is(r.err, context.Canceled)) {
			fail("status", "error %v", r.err)
		}
		if r.data != nil {
			fail("data-with-error", "%q", r.data)
		}
	case stall && at == len(wc.text):
	default:
		if r.err == nil {
			fail("partial", "%q without error, %+v", r.data, op)
		}
		if stall && r.err != nil && !errors.Is(r.err, context.Canceled) && !strings.Contains(r.err.Error(), "cancel") {
			fail("cancel-error", "error %v", r.err)
		}
		if isAPI && op.Out != "before" {
			fail("partial-output", "%+v with error %v", op, r.err)
		}
	}
	// everything is given back: with the idle connections closed none is open
	for i := 0; ; i++ {
		tr.CloseIdleConnections()
		if wr.open.Load() == 0 {
			break
		}
		if i > 150 {
			fail("connection-open", "a connection stays in use")
			break
		}
		time.Sleep(time.Duration(i+1) * 100 * time.Microsecond)
	}
	if r.err == nil {
		w.Nt++
	}
	w.Out(fmt.Sprintf("%s %s %v", call[which], wc.name, r.err == nil))
}

func main() {
	vk.Main("C22", "exploration", func(k *vk.Check) {
		log.SetDefaultLoggerLevel(slog.LevelError + 100)
		k.Rule("every client call against every status with several bodies, a body failing or ending at every byte, and every transport error, through a transport that records the request and the closing of the body; the same calls through the real transport over connections in memory that end, or fall silent until the caller gives up, at every byte of every kind of response")
		k.Assume("a caller giving up while the status arrives may get either error", "net/http's transport reports a torn Content-Length or chunked body as an error", "without a length the end of the connection ends the body")
		recorded(k)
		gohttp.DefaultTransport = wireTransport{}
		ws := wires()
		type job struct {
			wc        wireCase
			at, which int
			stall     bool
		}
		var jobs []job
		for _, wc := range ws {
			for _, which := range []int{0, 1, 3} {
				for at := 0; at <= len(wc.text); at++ {
					if at > wc.headLen+100 && at < len(wc.text)-5 && at%997 != 0 {
						continue
					}
					for _, st := range []bool{false, true} {
						jobs = append(jobs, job{wc, at, which, st})
					}
				}
			}
		}
		k.Set("faults", len(jobs))
		k.Par(int64(len(jobs)), func(w *vk.Worker, i int64) {
			j := jobs[i]
			cut(w, j.wc, j.at, j.which, j.stall)
		})
		k.Traces(k.GetEvals())
	})
}
